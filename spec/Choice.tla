------------------------------- MODULE Choice -------------------------------
(* Reproducible choices: a hash of (seed, step) and of the place of the choice. *)
EXTENDS Integers, Sequences, TLC
Q == 46337
Mix(x, y) == LET t == (((x + y) % Q) * 31421 + 6927) % Q IN (t * t + x + 3 * y) % Q
Hash(c, i) == Mix(Mix(Mix(Mix(c[1] % Q, c[1] \div Q + 17), c[2]), i), 3 * i + c[2])
D(c, i, m) == Hash(c, i) % m                          \* 0..m-1
Chance(c, i, pc) == D(c, i, 100) < pc
Pick(c, i, s) == s[1 + D(c, i, Len(s))]
(* nor does it matter whether a program is called directly or through another one *)
Through(c, s) == IF s.k = "tx" /\ Chance(c, 76, 8) THEN [s EXCEPT !.ops = [z \in 1..Len(s.ops) |-> ("via" :> TRUE) @@ s.ops[z]]] ELSE s
(* stretches of time, in slots *)
Leaps == << <<0, 0, 1>>, <<0, 0, 151>>, <<0, 0, 9001>>, <<0, 0, 432000>>, <<0, 0, 99999999>>, <<0, 42, 94967296>>, <<0, 20000, 7>>, <<900, 0, 0>> >>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE z \in S : TRUE IN <<y>> \o SeqOf(S \ {y})
RECURSIVE PickW(_, _)
PickW(ws, r) == IF r < Head(ws)[2] \/ Len(ws) = 1 THEN Head(ws)[1] ELSE PickW(Tail(ws), r - Head(ws)[2])
RECURSIVE Total(_)
Total(ws) == IF ws = <<>> THEN 0 ELSE Head(ws)[2] + Total(Tail(ws))
Weighted(c, i, ws) == PickW(ws, D(c, i, Total(ws)))
Sub0(c, k) == <<c[1], c[2] + 1000 * k>>               \* an independent stream of choices
=============================================================================
