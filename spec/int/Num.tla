------------------------------- MODULE Num -------------------------------
(* u64 quantities, variant for exhaustive model checking: TLC integers.   *)
(* The variant in ../big has the same interface and the full 64-bit range. *)
EXTENDS Integers
Zero == 0
N(i) == i
Add(a, b) == a + b
Sub(a, b) == a - b
Le(a, b) == a <= b
Lt(a, b) == a < b
Div10(a) == a \div 10
U64Max == 2000000000
IsNum(a) == a \in Int
==========================================================================
