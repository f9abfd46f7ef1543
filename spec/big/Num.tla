------------------------------- MODULE Num -------------------------------
(* u64 quantities as <<h, m, l>> in base 10^8 (TLC integers are 32 bits). *)
EXTENDS Integers, Sequences
LOCAL B == 100000000
Zero == <<0, 0, 0>>
N(i) == <<0, i \div B, i % B>>
Add(a, b) ==
  LET l == a[3] + b[3]
      m == a[2] + b[2] + (l \div B)
  IN <<a[1] + b[1] + (m \div B), m % B, l % B>>
Sub(a, b) ==
  LET l == a[3] - b[3]
      c == IF l < 0 THEN 1 ELSE 0
      m == a[2] - b[2] - c
      d == IF m < 0 THEN 1 ELSE 0
  IN <<a[1] - b[1] - d, IF m < 0 THEN m + B ELSE m, IF l < 0 THEN l + B ELSE l>>
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
Le(a, b) == ~Lt(b, a)
Div10(a) ==
  LET m == (a[1] % 10) * B + a[2]
      l == (m % 10) * B + a[3]
  IN <<a[1] \div 10, m \div 10, l \div 10>>
U64Max == <<1844, 67440737, 9551615>>
IsNum(a) == Len(a) = 3
==========================================================================
