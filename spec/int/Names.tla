------------------------------- MODULE Names -------------------------------
(* Derived addresses, variant for exhaustive model checking: one symbolic   *)
(* seed per address.                                                         *)
EXTENDS Sequences
LOCAL Progs == [A1 |-> "PROG", A2 |-> "PROG", C1 |-> "PROG2"]
PdaNames == {"A1", "A2", "C1", "esc/U1/0", "esc/U1/1", "esc/U2/0"}
PdaProg(x) == IF x \in DOMAIN Progs THEN Progs[x] ELSE "dlp"
SeedsOf(x) == <<"s:" \o x>>
(* the address that seeds derive from program p *)
Derive(seeds, p) == IF \E x \in PdaNames : PdaProg(x) = p /\ SeedsOf(x) = seeds
                    THEN CHOOSE x \in PdaNames : PdaProg(x) = p /\ SeedsOf(x) = seeds
                    ELSE "!"
SeedLen(s) == 4
============================================================================
