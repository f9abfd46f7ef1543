------------------------------- MODULE Names -------------------------------
(* Derived addresses as the replay harness knows them: seeds in hexadecimal. *)
EXTENDS Integers, Sequences, Json, IOUtils
LOCAL U == JsonDeserialize(IOEnv.UNIVERSE)
PdaNames == DOMAIN U
PdaProg(x) == U[x].prog
SeedsOf(x) == U[x].seeds
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
LOCAL Flat == [x \in PdaNames |-> Cat(SeedsOf(x))]
(* derivation concatenates the seeds, of at most 32 bytes each and 15 in all *)
Derive(seeds, p) ==
  IF Len(seeds) > 15 \/ \E i \in 1..Len(seeds) : Len(seeds[i]) > 64 THEN "!"
  ELSE LET c == Cat(seeds)
           S == {x \in PdaNames : PdaProg(x) = p /\ Flat[x] = c}
       IN IF S = {} THEN "!" ELSE CHOOSE x \in S : TRUE
SeedLen(s) == Len(s) \div 2
============================================================================
