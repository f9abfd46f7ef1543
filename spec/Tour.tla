-------------------------------- MODULE Tour --------------------------------
(* A tour through every operation of the program, and at each stop the        *)
(* systematic neighbourhood of it, to be tried on the real program:            *)
(*  - every operation of the tour, whether or not it is due (phase matrix);    *)
(*  - the due operation with one account replaced, by each of a pool;          *)
(*  - with the accounts derived from one name consistently or partly renamed   *)
(*    to those of another;                                                     *)
(*  - without a signature, a permission, an account, with one too many, two    *)
(*    exchanged; with shortened, extended or altered data.                     *)
(* Every stop is a behaviour of its own: the path to it, then the trials,      *)
(* each undone before the next.                                                *)
EXTENDS Calls, Choice, Json, IOUtils

Prop == IOEnv.PROP
Seed0 == atoi(IOEnv.SEED)
OutDir == IOEnv.OUTDIR
Share == atoi(IOEnv.SHARE)      \* of a hundred single replacements, how many are tried

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE IF Len(s) = 1 THEN Head(s)
           ELSE LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h + 1, Len(s)))
RawD(k, l) == [t |-> "raw", n |-> k, x |-> IF k = 0 THEN "" ELSE IF k = 1 /\ l = "t1" THEN "z" ELSE l]
Wal(l) == [l |-> l, o |-> "sys", d |-> Empty]
Pd(a) == [l |-> Rent(77), o |-> "LOADER", d |-> [t |-> "pd", auth |-> a]]
Vault(l) == [l |-> Add(Rent(8), l), o |-> "dlp", d |-> RawZ(8)]
c0 == <<Seed0, 1>>
SizeA == Pick(c0, 1, <<1, 8, 33, 100, 200, 1024>>)
SizeB == Pick(c0, 2, <<2, 9, 45, 96, 300>>)
Tip(i) == N(Pick(c0, 10 + i, <<1, 9, 10, 11, 1000, 54321, 999999>>))
AccOf(n, l, own, tip) == [l |-> Add(Rent(n), tip), o |-> own, d |-> RawD(n, l)]
Rich == <<0, 900, 0>>
InitLedger ==
  [U1 |-> Wal(Rich), U2 |-> Wal(Rich), V1 |-> Wal(Rich), V2 |-> Wal(Rich), V3 |-> Wal(Rich), ADM |-> Wal(Rich), UPA |-> Wal(Rich), M1 |-> Wal(Rich),
   ATT |-> Wal(Rich), FEE |-> Wal(Rich), W1 |-> Wal(Rent(0))]
  @@ ("pd/dlp" :> Pd("ADM")) @@ ("pd/PROG" :> Pd("UPA")) @@ ("pd/PROG2" :> Pd("U2"))
  @@ ("A1" :> [AccOf(SizeA, "d1", "PROG", Zero) EXCEPT !.l = Add(Rent(1030), N(200000))]) @@ ("A2" :> [AccOf(SizeB, "d2", "PROG", Zero) EXCEPT !.l = Add(Rent(1024), Tip(2))]) @@ ("A3" :> AccOf(8, "d3", "PROG", Zero))
  @@ ("C1" :> AccOf(16, "d4", "PROG2", Tip(3))) @@ ("P1" :> AccOf(16, "d5", "PROG", Tip(4)))
  @@ ("esc/V1/0" :> Wal(Rent(0))) @@ ("esc/ATT/0" :> Wal(Rent(0)))

(* -------------------------------- the tour -------------------------------- *)
T1(fp, op) == [fp |-> IF fp \in OnCurve THEN fp ELSE "FEE", ops |-> <<op>>, cb |-> "honest"]
tDl(x, prog, p, val) == T1("FEE", [op |-> "pdel", prog |-> prog, own |-> prog, p |-> p, x |-> x, freq |-> N(30000),
                                  seeds |-> SeedsOf(x), val |-> val, mode |-> "honest"])
tCm(v, x, own, s, l, u, d) == T1(v, [op |-> "commit", v |-> v, x |-> x, own |-> own, slot |-> s, lam |-> l, und |-> u, d |-> d])
tCb(v, x, own, s, l, u) == T1(v, [op |-> "commitb", v |-> v, x |-> x, own |-> own, buf |-> "SB1", slot |-> s, lam |-> l, und |-> u])
tFi(v, x) == T1(v, [op |-> "finalize", v |-> v, x |-> x])
tUn(v, x, own, rp) == T1(v, [op |-> "undelegate", v |-> v, x |-> x, own |-> own, rp |-> rp])
tWl(a, v, p, i) == T1(a, [op |-> "wl", auth |-> a, v |-> v, prog |-> p, ins |-> i])
tIv(v) == T1("FEE", [op |-> "initvv", p |-> "FEE", adm |-> "ADM", v |-> v])
tUp(p, u, a, i) == T1("FEE", [op |-> "topup", p |-> p, u |-> u, amt |-> a, idx |-> i])
tDe(p, u, i) == T1("FEE", [op |-> "delesc", p |-> p, u |-> u, freq |-> N(7), seeds |-> SeedsOf(EscKey(u, i)), val |-> "sys", idx |-> i])
tCe(u, i) == T1("FEE", [op |-> "closeesc", u |-> u, idx |-> i])
tVc(v, s, a) == T1(v, [op |-> "vclaim", v |-> v, some |-> s, amt |-> a])
LA == InitLedger["A1"].l
LB == InitLedger["A2"].l
Script == <<
  T1("FEE", [op |-> "initfv", p |-> "FEE"]), tIv("V1"), tIv("V2"), tIv("V3"),
  tDl("A3", "PROG", "U1", "V1"),
  tWl("UPA", "V1", "PROG", TRUE), tWl("ADM", "V2", "PROG", TRUE), tWl("U2", "V2", "PROG2", TRUE), tWl("U2", "V1", "PROG2", TRUE), tWl("U2", "V1", "PROG2", FALSE),
  tDl("A1", "PROG", "U1", "V1"), tDl("A2", "PROG", "U2", "V2"), tDl("C1", "PROG2", "U1", "sys"),
  tUp("U1", "U1", Tip(5), 0), tUp("ATT", "U2", Zero, 0), tDe("U1", "U1", 0), tDe("ATT", "U2", 0), tUp("U2", "U1", Tip(6), 0), tCe("V1", 0),
  tCm("V1", "A1", "PROG", N(1), Add(LA, Tip(7)), FALSE, RawD(SizeB, "d6")),
  tCm("V2", "A2", "PROG", N(4), LB, TRUE, RawD(SizeA, "d1")),
  tFi("V1", "A1"),
  tCb("V2", "A1", "PROG", N(5), Add(LA, Tip(7)), TRUE),
  tCm("V2", "C1", "PROG2", Zero, InitLedger["C1"].l, FALSE, RawD(17, "d2")),
  tFi("V2", "A1"), tUn("V1", "A1", "PROG", "U1"),
  tDl("A1", "PROG", "U2", "sys"),
  tCm("V1", "A1", "PROG", Zero, LA, TRUE, RawD(SizeB, "d1")),
  tFi("V1", "A1"), tFi("V1", "A1"),
  tCm("V1", "A3", "PROG", <<920, 1, 1>>, Add(InitLedger["A3"].l, N(1)), FALSE, RawD(8, "d3")),
  tCm("V1", "esc/U1/0", "sys", N(1), Add(Rent(0), Tip(5)), TRUE, Empty), tFi("V1", "esc/U1/0"), tUn("V1", "esc/U1/0", "sys", "U1"), tCe("U1", 0),
  tFi("V2", "A2"), tUn("V2", "A2", "PROG", "U2"),
  tVc("V1", TRUE, N(19)), tVc("V1", FALSE, Zero),
  T1("ADM", [op |-> "pclaim", adm |-> "ADM"]),
  [fp |-> "FEE", ops |-> << [op |-> "assign", x |-> "W1", to |-> "dlp"],
     [op |-> "delegate", p |-> "U1", x |-> "W1", own |-> "sys", freq |-> Zero, seeds |-> <<>>, val |-> "V1"] >>, cb |-> "honest"],
  tCm("V3", "W1", "sys", Zero, Rent(0), TRUE, Empty), tFi("V3", "W1"), tUn("V3", "W1", "sys", "U1"),
  T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> "V3"]),
  tUn("V2", "A1", "PROG", "U2") >>
Extra == << tFi("V2", "A1"), tFi("V1", "A2"), tUn("V2", "A1", "PROG", "U1"), tUn("V1", "A2", "PROG", "U2"), tWl("ATT", "ATT", "PROG", TRUE),
            tWl("UPA", "V2", "PROG2", TRUE), tVc("ATT", FALSE, Zero), T1("ATT", [op |-> "pclaim", adm |-> "ATT"]), tCe("ATT", 0), tCe("U2", 0), tCe("ATT", 1),
            T1("ATT", [op |-> "initvv", p |-> "ATT", adm |-> "ATT", v |-> "ATT"]), T1("ATT", [op |-> "closevv", p |-> "ATT", adm |-> "ATT", v |-> "V1"]),
            T1("UPA", [op |-> "closevv", p |-> "FEE", adm |-> "UPA", v |-> "V1"]),
            tCm("V3", "A1", "PROG", N(9), LA, TRUE, RawD(3, "d3")), tCm("V1", "C1", "PROG2", N(9), LA, TRUE, RawD(3, "d3")),
            tCm("V1", "A1", "PROG", N(2), LA, FALSE, RawD(3, "d3")), tCm("V1", "A1", "PROG", N(5), Add(LA, <<0, 950, 0>>), FALSE, RawD(3, "d3")),
            tCm("ATT", "A1", "PROG", N(9), LA, TRUE, RawD(3, "d3")) >>

(* ------------------------------- neighbourhood ------------------------------- *)
AlOf(op) == IF op.op = "pdel" THEN CallAccounts([op EXCEPT !.op = "delegate"]) ELSE CallAccounts(op)
With(op, ms) == IF op.op = "pdel"
                THEN [op |-> "pdel", prog |-> op.prog, own |-> op.own, p |-> op.p, x |-> op.x, freq |-> op.freq, seeds |-> op.seeds,
                      val |-> op.val, mode |-> op.mode, in |-> ms]
                ELSE ("mut" :> ms) @@ op
Pool == <<"A1", "A2", "A3", "C1", "W1", "esc/U1/0", "esc/U2/0", "esc/ATT/0", "rec/A1", "rec/A2", "rec/C1", "rec/esc/U1/0", "meta/A1", "meta/A2", "meta/C1",
          "cs/A1", "cs/A2", "cr/A1", "cr/A2", "cs/C1", "cr/C1", "ubuf/A1", "ubuf/A2", "vv/V1", "vv/V2", "vv/V3", "vv/ATT", "fv", "cfg/PROG", "cfg/PROG2", "cfg/sys",
          "pd/dlp", "pd/PROG", "pd/PROG2", "U1", "U2", "V1", "V2", "V3", "ATT", "ADM", "UPA", "FEE", "M1", "sys", "dlp", "PROG", "PROG2", "buf/A1/PROG", "buf/A2/PROG",
          "buf/A1/sys", "buf/A1/PROG2", "SB1">>
Swap(i, k) == [m |-> "swap", i |-> i, k |-> k]
Pre(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
(* something of the same kind *)
Kind(k) == CASE k \in Wallets -> "wallet" [] Pre(k, "rec/") -> "rec" [] Pre(k, "meta/") -> "meta" [] Pre(k, "cs/") -> "cs"
             [] Pre(k, "cr/") -> "cr" [] Pre(k, "vv/") -> "vv" [] Pre(k, "cfg/") -> "cfg" [] Pre(k, "pd/") -> "pd"
             [] Pre(k, "ubuf/") -> "ubuf" [] Pre(k, "buf/") -> "buf" [] Pre(k, "esc/") -> "esc"
             [] k \in {"PROG", "PROG2", "sys", "dlp"} -> "prog" [] OTHER -> "acc"
(* accounts of the program that hold lamports, to put in the place of any that is written *)
Purses == {"A1", "A2", "C1", "esc/U1/0", "rec/A1", "meta/A2", "cs/A1", "cr/A1", "vv/V2", "fv", "cfg/PROG"}
Singles(c, al) ==
  LET one(i) == LET ks == SelectSeq(Pool, LAMBDA k : k # al[i].k /\ (al[i].s => k \in Wallets)
                                                     /\ (Kind(k) = Kind(al[i].k) \/ (Kind(k) \in {"acc", "esc"} /\ Kind(al[i].k) \in {"acc", "esc"})
                                                        \/ (al[i].w /\ ~al[i].s /\ k \in Purses) \/ Chance(<<c[1], c[2] + i>>, Len(k) * 64 + i + (CHOOSE z \in 1..Len(Pool) : Pool[z] = k) * 7, Share)))
                IN [z \in 1..Len(ks) |-> << Swap(i, ks[z]) >>]
      RECURSIVE all(_)
      all(i) == IF i > Len(al) THEN <<>> ELSE one(i) \o all(i + 1)
  IN all(1)
(* names derived from y *)
Derived(y) == {y} \cup {p \o y : p \in {"rec/", "meta/", "cs/", "cr/", "ubuf/", "vv/", "cfg/", "pd/"}} \cup {"buf/" \o y \o "/" \o o : o \in {"PROG", "PROG2", "sys", "dlp"}}
Renamed(k, y, z) == IF k = y THEN z
                    ELSE IF \E p \in {"rec/", "meta/", "cs/", "cr/", "ubuf/", "vv/", "cfg/", "pd/"} : k = p \o y
                         THEN (CHOOSE p \in {"rec/", "meta/", "cs/", "cr/", "ubuf/", "vv/", "cfg/", "pd/"} : k = p \o y) \o z
                         ELSE "buf/" \o z \o "/" \o (CHOOSE o \in {"PROG", "PROG2", "sys", "dlp"} : k = "buf/" \o y \o "/" \o o)
Kin == {<<"A1", "A2">>, <<"A2", "A1">>, <<"C1", "A1">>, <<"A3", "A1">>, <<"A3", "A2">>, <<"V1", "V2">>, <<"V2", "V1">>, <<"V3", "V1">>, <<"V1", "ATT">>,
        <<"PROG", "PROG2">>, <<"PROG2", "PROG">>, <<"PROG", "sys">>, <<"sys", "PROG">>, <<"sys", "dlp">>, <<"dlp", "PROG">>, <<"U1", "U2">>, <<"U2", "ATT">>, <<"ADM", "UPA">>, <<"ADM", "ATT">>,
        <<"UPA", "U2">>, <<"UPA", "ATT">>, <<"esc/U1/0", "esc/U2/0">>, <<"esc/U2/0", "esc/U1/0">>, <<"esc/U1/0", "A1">>, <<"W1", "A1">>, <<"esc/U1/0", "esc/ATT/0">>}
RECURSIVE SwapsOf(_, _, _, _)
SwapsOf(al, P, y, z) == IF P = {} THEN <<>>
                        ELSE LET i == CHOOSE q \in P : \A r \in P : q <= r IN << Swap(i, Renamed(al[i].k, y, z)) >> \o SwapsOf(al, P \ {i}, y, z)
Renames(al) ==
  UNION {LET P == {i \in 1..Len(al) : al[i].k \in Derived(yz[1])}
         IN {SwapsOf(al, QQ, yz[1], yz[2]) : QQ \in {R \in SUBSET P : Cardinality(R) > 1 /\ \A i \in R : al[i].s => Renamed(al[i].k, yz[1], yz[2]) \in Wallets}}
         : yz \in Kin}
(* two names at once: a program and its authority, a validator and its account, a user and an escrow *)
KinTwo == {<<"dlp", "PROG", "ADM", "UPA">>, <<"dlp", "PROG2", "ADM", "U2">>, <<"PROG", "PROG2", "UPA", "U2">>, <<"PROG2", "PROG", "U2", "UPA">>, <<"PROG", "dlp", "UPA", "ADM">>,
           <<"PROG", "sys", "UPA", "ADM">>, <<"V1", "V2", "A1", "A2">>, <<"V2", "V1", "A2", "A1">>, <<"V1", "V2", "A1", "C1">>, <<"V2", "V1", "A1", "A3">>, <<"U1", "U2", "esc/U1/0", "esc/U2/0">>,
           <<"U1", "ATT", "esc/U1/0", "esc/ATT/0">>, <<"A1", "C1", "PROG", "PROG2">>, <<"C1", "A1", "PROG2", "PROG">>, <<"U1", "V1", "vv/V1", "vv/V2">>, <<"V1", "ATT", "vv/V1", "vv/ATT">>,
           <<"cs/A1", "pd/PROG", "cr/A1", "pd/PROG2">>, <<"cs/A1", "PROG", "cr/A1", "pd/dlp">>, <<"cs/A1", "A2", "cr/A1", "pd/dlp">>, <<"cs/A1", "rec/A1", "cr/A1", "meta/A1">>, <<"cs/A1", "cr/A1", "cr/A1", "cs/A1">>,
           <<"cs/A1", "U1", "cr/A1", "U2">>, <<"cs/A1", "vv/V1", "cr/A1", "vv/V2">>, <<"rec/A1", "rec/A2", "meta/A1", "meta/A2">>, <<"rec/A1", "rec/A2", "A1", "A2">>, <<"meta/A1", "meta/A2", "A1", "A2">>}
KinSwaps(al, yz) ==
  LET hit(i, j) == al[i].k \in Derived(yz[j])
      P == {i \in 1..Len(al) : hit(i, 1)}  P2 == {i \in 1..Len(al) : hit(i, 3)} \ P
      ok(R, j) == \A i \in R : al[i].s => Renamed(al[i].k, yz[j], yz[j + 1]) \in Wallets
      subs(R) == IF Cardinality(R) <= 4 THEN SUBSET R \ {{}} ELSE {R} \cup {R \ {i} : i \in R} \cup {{i} : i \in R}
  IN IF P = {} \/ P2 = {} THEN {}
     ELSE {SwapsOf(al, r[1], yz[1], yz[2]) \o SwapsOf(al, r[2], yz[3], yz[4]) : r \in {z \in subs(P) \X subs(P2) : ok(z[1], 1) /\ ok(z[2], 3)}}
(* any two accounts replaced, each by one of the same kind *)
Twos(c, al, n) ==
  LET like(i) == SelectSeq(Pool, LAMBDA k : k # al[i].k /\ (al[i].s => k \in Wallets) /\ Kind(k) = Kind(al[i].k))
      is == SelectSeq([i \in 1..Len(al) |-> i], LAMBDA i : like(i) # <<>>)
      one(z) == LET i == Pick(c, 7000 + 4 * z, is)  j == Pick(c, 7001 + 4 * z, is) IN
                IF i = j THEN <<>> ELSE << << Swap(i, Pick(c, 7002 + 4 * z, like(i))), Swap(j, Pick(c, 7003 + 4 * z, like(j))) >> >>
  IN IF is = <<>> THEN <<>> ELSE Flat([z \in 1..n |-> one(z)])
Doubles(al) == UNION {KinSwaps(al, yz) : yz \in KinTwo}
Shapes(al) ==
  LET n == Len(al) IN
  {<< [m |-> "nosig", i |-> i], [m |-> "rw", i |-> i] >> : i \in {j \in 1..n : al[j].s}} \cup {<< [m |-> "nosig", i |-> i] >> : i \in {j \in 1..n : al[j].s}}
  \cup {<< [m |-> "ro", i |-> i] >> : i \in {j \in 1..n : al[j].w}} \cup {<< [m |-> "rw", i |-> i] >> : i \in {j \in 1..n : ~al[j].w}}
  \cup {<< [m |-> "drop", i |-> i] >> : i \in 1..n} \cup {<< [m |-> "push", k |-> k] >> : k \in {"sys", "A1", "V2"}}
  \cup {<< [m |-> "exch", i |-> p[1], j |-> p[2]] >> : p \in {q \in (1..n) \X (1..n) : q[1] < q[2] /\ al[q[1]].s = al[q[2]].s}}
Datas ==
  {<< [m |-> "trunc", i |-> i] >> : i \in {1, 2, 3, 4, 7, 8, 9, 16, 33, 60, 200}} \cup {<< [m |-> "ext", i |-> i] >> : i \in {1, 2, 8, 32}}
  \cup {<< [m |-> "code", i |-> i] >> : i \in 0..17} \cup {<< [m |-> "code", i |-> 255] >>, << [m |-> "code", i |-> 128] >>}
Bytes0 == {<< [m |-> "byte", i |-> v, j |-> j] >> : v \in {1, 2, 255}, j \in {0, 1, 4, 7, 8, 9, 12, 15, 16, 17, 18, 20, 33, 34}}

OpsOf(p) ==
  CASE p \in {"C01", "C02"} -> {"pdel", "delegate", "delesc"}
    [] p \in {"C04", "C05", "C06", "C08", "C09"} -> {"commit", "commitb"}
    [] p = "C07" -> {"commit", "commitb", "finalize"}
    [] p \in {"C10", "C11", "C12", "C13"} -> {"finalize"}
    [] p \in {"C14", "C15", "C16"} -> {"undelegate"}
    [] p = "C17" -> {"vclaim", "closevv"} [] p = "C18" -> {"pclaim"} [] p = "C19" -> {"initvv", "closevv", "initfv"} [] p = "C20" -> {"wl"}
    [] p = "C21" -> {"topup"} [] p = "C22" -> {"closeesc", "delesc"} [] p = "C23" -> {"delesc", "topup", "closeesc"}
    [] p = "C03" -> {"pdel", "delegate", "delesc", "commit", "finalize", "undelegate"}
    [] p \in {"C24", "C25", "C31", "C30", "ALL"} -> {"pdel", "delegate", "delesc", "commit", "commitb", "finalize", "undelegate", "vclaim", "closevv", "pclaim", "initvv",
                                     "initfv", "wl", "topup", "closeesc"}
    [] OTHER -> {}
(* operations to try with other arguments, without structural changes *)
AlterOf(p) ==
  CASE p \in {"C10", "C11", "C12", "C13", "C14", "C15", "C16"} -> {"commit", "commitb"}
    [] p = "C26" -> {"pdel", "delegate", "commit", "commitb", "finalize", "undelegate"}
    [] p \in {"C27", "C30"} -> {"delesc", "vclaim", "closevv", "pclaim", "initvv", "initfv", "wl", "topup", "closeesc"}
    [] p \in {"C02", "C32", "C29"} -> {"pdel", "delegate", "delesc", "commit", "finalize", "undelegate", "wl", "topup"}
    [] OTHER -> {}
RECURSIVE SeqOf2(_)
SeqOf2(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE z \in S : TRUE IN <<y>> \o SeqOf2(S \ {y})
MutsFor(c, op) ==
  IF op.op \notin OpsOf(Prop) THEN <<>>
  ELSE LET al == AlOf(op) IN
       Singles(c, al) \o Twos(c, al, 24) \o SeqOf2(Renames(al) \cup Doubles(al)) \o (IF Prop \in {"C31", "ALL"} \/ Share > 50 THEN SeqOf2(Shapes(al) \cup Datas \cup Bytes0)
                                                 ELSE SeqOf2({m \in Shapes(al) : m[1].m \in {"nosig", "ro"}}))
Full(tx, tag) == [k |-> "tx", fp |-> tx.fp, ops |-> tx.ops, cb |-> tx.cb, h |-> TRUE, tag |-> tag]
(* somebody to pay the fee who has no part in the operation, and so adds no signature to it *)
Outsider(op) == LET al == AlOf(op) IN Head(SelectSeq(<<"FEE", "UPA", "ATT", "U2", "ADM", "U1">>, LAMBDA w : \A i \in 1..Len(al) : al[i].k # w))
MutTx(tx, ms) == LET q == Len(tx.ops)
                     unsigned == \E z \in 1..Len(ms) : ms[z].m \in {"nosig", "ro"}
                 IN [tx EXCEPT !.ops = [@ EXCEPT ![q] = With(@, ms)], !.fp = IF unsigned THEN Outsider(tx.ops[q]) ELSE @]
Trial(t) == << [k |-> "push"], t, [k |-> "pop"] >>
Trials(t, ts) == << [k |-> "push"], t >> \o Flat([z \in 1..Len(ts) |-> << Full(ts[z], "sequel") >>]) \o << [k |-> "pop"] >>
Needs(tx) == IF \E i \in 1..Len(tx.ops) : tx.ops[i].op = "commitb" THEN << [k |-> "env", acc |-> "SB1" :> [l |-> Rent(SizeA + 1), o |-> "PROG", d |-> RawD(SizeA + 1, "d4")]] >> ELSE <<>>
Matrix == SelectSeq(Script \o Extra, LAMBDA t : TRUE)
PathTo(k) == << [k |-> "init", slot |-> N(50), acc |-> InitLedger] >>
             \o Flat([z \in 1..(k - 1) |-> Needs(Script[z]) \o << Full(Script[z], "tour") >>]) \o (IF k > Len(Script) THEN <<>> ELSE Needs(Script[k]))
(* ---------------------- other arguments for the due operation ---------------------- *)
Spec1(t) == [fp |-> t.fp, ops |-> t.ops, cb |-> t.cb]
RECURSIVE Before(_)
Before(k) ==          \* the ledger the specification reaches before stop k
  IF k = 1 THEN Sweep(InitLedger)
  ELSE LET M == Before(k - 1) IN ExecTx(M, Spec1(Script[k - 1]), N(50)).L
Idxs(u) == CASE u = "U1" -> <<0, 1, 7, 255>> [] u = "U2" -> <<0, 128, 254>> [] u = "ATT" -> <<0, 1, 128, 255>> [] u = "V1" -> <<0>> [] u = "ADM" -> <<3>> [] u = "M1" -> <<0, 9>> [] OTHER -> <<>>
Free(a, b) == IF Lt(a, b) THEN Zero ELSE Sub(a, b)
Progs == <<"PROG", "PROG2", "sys", "dlp">>
Persons == <<"U1", "U2", "V1", "V2", "V3", "ATT", "ADM", "UPA", "M1">>
Xs == <<"A1", "A2", "A3", "C1", "P1", "W1", "esc/U1/0", "esc/U2/0", "esc/ATT/0">>
Lams(M, x) == LET r == Dat(M, "rec/" \o x)  b == IF r.t = "rec" THEN r.lam ELSE Zero IN
  <<Zero, b, Add(b, N(1)), Free(b, N(1)), Add(b, N(5000000)), Free(b, N(200000)), Rent(DLen(Dat(M, x))), Lam(M, x), Add(b, <<0, 899, 0>>), Add(b, <<0, 901, 0>>), U64Max>>
Slots(M, x) == LET m == Dat(M, "meta/" \o x)  b == IF m.t = "meta" THEN m.last ELSE Zero IN
  <<Zero, N(1), b, Add(b, N(1)), Free(b, N(1)), Add(b, N(999999)), <<0, 42, 94967296>>, <<920, 1, 1>>, <<1844, 1, 1>>, U64Max>>
(* the same bytes cut into seeds otherwise: they derive the same address *)
Recut(s) == << <<"">> \o s, s \o <<"">> >>
            \o (IF s = <<>> THEN <<>> ELSE IF Len(s[1]) < 4 THEN <<>>
                 ELSE << <<SubSeq(s[1], 1, 2), SubSeq(s[1], 3, Len(s[1]))>> \o Tail(s) >>)
            \o (IF Len(s) < 2 THEN <<>> ELSE IF Len(s[1]) + Len(s[2]) > 64 THEN <<>> ELSE << <<s[1] \o s[2]>> \o SubSeq(s, 3, Len(s)) >>)
FieldVals(M, op, f) ==
  CASE f \in {"p", "v", "adm", "rp", "auth"} -> IF op.op = "wl" /\ f = "v" THEN Persons \o <<"FEE", "W1", "SB1">> ELSE Persons
    [] f = "x" -> Xs [] f \in {"prog", "own"} -> IF op.op = "pdel" /\ f = "prog" THEN <<"PROG", "PROG2">> ELSE Progs
    [] f = "slot" -> Slots(M, op.x)
    [] f = "lam" -> Lams(M, op.x)
    [] f \in {"und", "ins", "some"} -> <<TRUE, FALSE>>
    [] f = "d" -> [z \in 1..8 |-> RawD(<<0, 1, 8, 9, 200, 1024, 1025, 10240>>[z], "d5")] \o <<RawD(33, "z"), RawD(DLen(Dat(M, op.x)), "d6"), RawD(DLen(Dat(M, op.x)), "m1"), RawD(DLen(Dat(M, op.x)), "z"), RawD(96, "k0"), RawD(88, "k1"), RawD(DLen(Dat(M, op.x)), "f")>>
    [] f = "freq" -> <<Zero, N(1), <<0, 42, 94967295>>>> [] f = "val" -> <<"sys", "V1", "ATT", "PROG">>
    [] f = "seeds" -> <<SeedsOf("A1"), SeedsOf("A2"), <<>>, SeedsOf("C1"), SeedsOf("esc/U1/0")>> \o Recut(op.seeds)
    [] f = "mode" -> <<"nosign", "nobuf", "sbuf", "lbuf", "noassign">>
    [] f = "idx" -> Idxs(op.u)
    [] f = "amt" -> IF op.op = "topup" THEN <<Zero, N(1), N(10000), N(890880), N(890879), <<0, 99, 0>>, Rich, <<0, 901, 0>>, U64Max>>
                    ELSE LET fr == Free(Lam(M, "vv/" \o op.v), Rent(8)) IN
                         <<fr, Add(fr, N(1)), Free(fr, N(1)), Zero, N(1), N(9), N(10), N(11), N(99), N(100), Div10(fr), Lam(M, "vv/" \o op.v), U64Max>>
    [] OTHER -> <<>>
Put1(op, f, v) == IF f = "x" /\ op.op \in {"pdel"} THEN [op EXCEPT !.x = v, !.seeds = IF v \in PdaNames THEN SeedsOf(v) ELSE <<>>] ELSE [op EXCEPT ![f] = v]
Alter(M, op) ==
  LET fs == SeqOf(DOMAIN op)
      one(f) == LET vs == SelectSeq(FieldVals(M, op, f), LAMBDA v : v # op[f]) IN [z \in 1..Len(vs) |-> Put1(op, f, vs[z])]
      RECURSIVE all(_)
      all(i) == IF i > Len(fs) THEN <<>> ELSE one(fs[i]) \o all(i + 1)
      (* another user's escrow; two fields at a time for what belongs together *)
      esc == IF "u" \notin DOMAIN op THEN <<>> ELSE
             LET ws == <<"U1", "U2", "V1", "ATT", "ADM">>
                 RECURSIVE go(_)
                 go(i) == IF i > Len(ws) THEN <<>> ELSE [z \in 1..Len(Idxs(ws[i])) |-> [op EXCEPT !.u = ws[i], !.idx = Idxs(ws[i])[z]]] \o go(i + 1)
             IN go(1)
      two == IF {"slot", "lam"} \subseteq DOMAIN op THEN Flat([a \in 1..10 |-> [z \in 1..11 |-> [op EXCEPT !.slot = Slots(M, op.x)[a], !.lam = Lams(M, op.x)[z]]]])
             ELSE IF op.op = "wl" THEN Flat([a \in 1..9 |-> Flat([z \in 1..4 |-> << [op EXCEPT !.auth = Persons[a], !.prog = Progs[z]],
                                                                                   [op EXCEPT !.auth = Persons[a], !.prog = Progs[z], !.ins = ~@] >>])])
             ELSE <<>>
  IN SelectSeq(all(1) \o esc \o two, LAMBDA o : o # op /\ (o.op = "delegate" => o.x \in Wallets) /\ (IF "u" \in DOMAIN o THEN \E z \in 1..Len(Idxs(o.u)) : Idxs(o.u)[z] = o.idx ELSE TRUE))
(* how things go on after the altered operation *)
Sequel(M, op) ==
  LET payer(x) == LET m == Dat(M, "meta/" \o x) IN IF m.t = "meta" THEN m.payer ELSE "U1"
      cm(v, x, own, d) == tCm(v, x, own, U64Max, LET r == Dat(M, "rec/" \o x) IN IF r.t = "rec" THEN r.lam ELSE Lam(M, x), TRUE, d) IN
  CASE op.op = "pdel" -> << tFi("V1", op.x), tCm("V1", op.x, op.own, N(1), Lam(M, op.x), TRUE, RawD(3, "d2")), tFi("V1", op.x), tUn("V1", op.x, op.own, op.p) >>
    [] op.op = "delesc" -> LET x == EscKey(op.u, op.idx) IN << tCm("V1", x, "sys", N(1), Lam(M, x), TRUE, Empty), tFi("V1", x), tUn("V1", x, "sys", op.p), tCe(op.u, op.idx) >>
    [] op.op \in {"commit", "commitb"} -> << tFi(op.v, op.x), tUn("V2", op.x, op.own, payer(op.x)), cm("V1", op.x, op.own, RawD(7, "d3")), tFi("V1", op.x), tUn("V1", op.x, op.own, payer(op.x)) >>
    [] op.op = "topup" -> LET x == EscKey(op.u, op.idx) IN << tDe("U2", op.u, op.idx), tUp("ATT", op.u, N(1), op.idx), tCe(op.u, op.idx), tCm("V1", x, "sys", N(1), Add(Lam(M, x), op.amt), TRUE, Empty) >>
    [] op.op = "closeesc" -> << tUp("U2", op.u, N(3), op.idx), tCe(op.u, op.idx) >>
    [] op.op = "wl" -> IF op.v \in Wallets THEN << tIv(op.v), tCm(op.v, "A1", "PROG", <<0, 50, 0>>, LA, FALSE, RawD(3, "d3")), tFi(op.v, "A1") >> ELSE <<>>
    [] op.op = "initvv" -> << tVc(op.v, FALSE, Zero), T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> op.v]) >>
    [] op.op = "vclaim" -> << tVc(op.v, FALSE, Zero), T1("ADM", [op |-> "pclaim", adm |-> "ADM"]) >>
    [] OTHER -> <<>>
Hostile == <<"fail", "nothing", "wrong", "wrong0", "short", "long", "over", "over2", "under", "zero", "other">>
Altered(k) ==
  LET t == Script[k]  q == Len(t.ops)  M == Before(k)  as == Alter(M, t.ops[q])
      on(z) == z <= 40 \/ Chance(<<Seed0, k>>, 9000 + z, 25)
      alt(o) == Full([t EXCEPT !.ops = [@ EXCEPT ![q] = o], !.fp = IF "v" \in DOMAIN o /\ o.op \notin {"wl", "initvv", "closevv"} THEN o.v ELSE "FEE"], "alter")
  IN IF t.ops[q].op \notin OpsOf(Prop) \cup AlterOf(Prop) THEN <<>>
     ELSE Flat([z \in 1..Len(as) |-> Trials(alt(as[z]), IF on(z) THEN Sequel(M, as[z]) ELSE <<>>)])
          \o (IF t.ops[q].op = "undelegate" THEN Flat([z \in 1..Len(Hostile) |-> Trial(Full([t EXCEPT !.cb = Hostile[z]], "callback"))]) ELSE <<>>)

(* The due operation once more, with lamports everywhere, so that nobody has to pay for anything and no payment *)
(* fails in the place of a missing check: without each signature and permission, and with each signer replaced *)
Holds(k) == Kind(k) \in {"rec", "meta", "cs", "cr", "ubuf", "vv", "cfg", "esc"} \/ k = "fv"
Cheap(M, op) == IF op.op \in {"commit", "commitb"} THEN LET r == Dat(M, "rec/" \o op.x) IN IF r.t = "rec" THEN [op EXCEPT !.lam = r.lam] ELSE op
                ELSE IF op.op = "topup" THEN [op EXCEPT !.amt = Zero]
                ELSE IF op.op = "vclaim" THEN [op EXCEPT !.some = TRUE, !.amt = Zero] ELSE op
Richly(k) ==
  LET t0 == Script[k]  q == Len(t0.ops)  op == t0.ops[q] IN
  IF op.op \notin OpsOf(Prop) THEN <<>> ELSE
  LET t == [t0 EXCEPT !.ops = [@ EXCEPT ![q] = Cheap(Before(k), op)], !.fp = Outsider(op)]
      al == AlOf(op)
      P == SeqOf2({al[i].k : i \in {j \in 1..Len(al) : Holds(al[j].k)}})
      sg == {j \in 1..Len(al) : al[j].s}
      un == {<< [m |-> "nosig", i |-> i] >> : i \in sg} \cup {<< [m |-> "nosig", i |-> i], [m |-> "ro", i |-> i] >> : i \in sg}
            \cup {<< [m |-> "nosig", i |-> p[1]], [m |-> "nosig", i |-> p[2]] >> : p \in {z \in sg \X sg : z[1] < z[2]}}
      sw == {<< Swap(p[1], p[2]) >> : p \in {z \in sg \X Wallets : al[z[1]].k # z[2]}}
      pr == {<< Swap(p[1], p[2]) >> : p \in {z \in (1..Len(al)) \X {"PROG", "PROG2", "sys", "dlp"} : Kind(al[z[1]].k) = "prog" /\ al[z[1]].k # z[2]}}
      ms == SeqOf2(un \cup sw \cup pr \cup {<< [m |-> "ro", i |-> i] >> : i \in {j \in 1..Len(al) : al[j].w}})
      dep(x) == [k |-> "tx", fp |-> "FEE", ops |-> << [op |-> "xfer", from |-> "FEE", to |-> x, amt |-> <<0, 10, 0>>] >>, cb |-> "honest", h |-> TRUE, tag |-> "dep"]
  IN << [k |-> "push"] >> \o [z \in 1..Len(P) |-> dep(P[z])] \o Trial(Full(t, "rich"))
     \o Flat([z \in 1..Len(ms) |-> Trial(Full(MutTx(t, ms[z]), "rich"))]) \o << [k |-> "pop"] >>
(* The due operation together with others in one transaction: after a deposit that leaves one of its accounts below *)
(* the rent exemption, before a deposit to an account it may have closed, twice, and followed by the next ones *)
Bundles(k) ==
  LET t == Script[k]  q == Len(t.ops)  op == t.ops[q] IN
  IF op.op \notin OpsOf(Prop) \cup AlterOf(Prop) THEN <<>> ELSE
  LET al == AlOf(op)
      P == SeqOf2({al[i].k : i \in {j \in 1..Len(al) : Holds(al[j].k)}})
      fee(x, amt) == [op |-> "xfer", from |-> "FEE", to |-> x, amt |-> amt]
      with(ops, cb) == Trial(Full([fp |-> "FEE", ops |-> ops, cb |-> cb], "bundle"))
      after(n) == Flat([z \in 1..n |-> IF k + z > Len(Script) THEN <<>> ELSE Script[k + z].ops])
  IN Flat([z \in 1..Len(P) |-> with(<< fee(P[z], N(1)) >> \o t.ops, t.cb) \o with(<< fee(P[z], N(890879)) >> \o t.ops, t.cb)
                               \o with(t.ops \o << fee(P[z], <<0, 10, 0>>) >>, t.cb)
                               \o with(t.ops \o << fee(P[z], <<0, 10, 0>>), op >>, t.cb)])
     \o with(t.ops \o << op >>, t.cb) \o with(t.ops \o after(1), t.cb) \o with(t.ops \o after(2), t.cb) \o with(t.ops \o after(3), t.cb)
(* stops without a due operation to alter only matter for the matrix *)
Stop(k) ==
  LET due == IF k > Len(Script) THEN <<>> ELSE
             LET t == Script[k]  ms == MutsFor(<<Seed0, k>>, t.ops[Len(t.ops)])
                 as == Altered(k)
             IN Flat([z \in 1..Len(ms) |-> Trial(Full(MutTx(t, ms[z]), "near"))]) \o as
      all == Flat([z \in 1..Len(Matrix) |-> Trial(Full(Matrix[z], "matrix"))])
  IN PathTo(k) \o all \o due \o (IF k > Len(Script) THEN <<>> ELSE Richly(k) \o Bundles(k))

(* ----------------------------- stories of their own ----------------------------- *)
Txs(ts) == Flat([z \in 1..Len(ts) |-> Needs(ts[z]) \o << Full(ts[z], "tale") >>])
Dep(k, amt) == Full(T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> k, amt |-> amt]), "dep")
(* the same transaction with and without a deposit before it *)
Both(k, amt, t) == << [k |-> "push"], Full(t, "pair"), [k |-> "pop"], [k |-> "push"], Dep(k, amt), Full(t, "pair"), [k |-> "cmp", kind |-> "dep", at |-> k, amt |-> amt], [k |-> "pop"] >>
Rel(x) == << [k |-> "push"], [k |-> "rel", x |-> x], [k |-> "pop"] >>
Bundle(ts) == [fp |-> "V1", ops |-> Flat([z \in 1..Len(ts) |-> ts[z].ops]), cb |-> "honest"]
(* sessions of one account, one after the other *)
Session(z) ==
  LET v == <<"V1", "V2", "V1", "V2">>[z]  p == <<"U1", "U2", "ATT", "U1">>[z]  l == Add(LA, N(10 * z))
      d1 == RawD(<<5, 1024, 0, 64>>[z], "d2")  d2 == RawD(<<1024, 7, 200, 1>>[z], "d5") IN
  Txs(<< tDl("A1", "PROG", p, IF z = 2 THEN "sys" ELSE v), tFi(v, "A1"), tCm(v, "A1", "PROG", N(z - 1), l, FALSE, d1) >>) \o Rel("A1")
  \o Txs(<< tFi(v, "A1") >>) \o Rel("A1")
  \o Txs(<< tCm(v, "A1", "PROG", N(z - 1), LA, z % 2 = 0, RawD(9, "d3")), tFi(v, "A1") >>)
  \o (IF z % 2 = 0 THEN <<>> ELSE Txs(<< tCm("V1", "A1", "PROG", N(700 * z), l, TRUE, d2), tFi("V1", "A1") >>))
  \o Txs(<< tCm(v, "A1", "PROG", N(0), l, FALSE, d1), tFi(v, "A1") >>) \o Rel("A1") \o Txs(<< tUn(v, "A1", "PROG", p) >>)
Many == <<"V1", "U1", "A1", "fv", "V2", "ATT", "PROG", "sys", "W1", "rec/A1", "ADM", "vv/V1", "SB1", "UPA", "C1", "FEE", "V3", "dlp">>
Grow(p, a, ins) == [z \in 1..Len(Many) |-> tWl(a, Many[z], p, ins)]
(* names to fill a list with *)
Sides == Flat([z \in 1..12 |-> LET x == <<"A1", "A2", "A3", "A4", "A5", "C1", "P1", "W1", "W2", "esc/U1/0", "esc/U2/0", "esc/ATT/0">>[z] IN
               << x, "rec/" \o x, "meta/" \o x, "cs/" \o x, "cr/" \o x, "ubuf/" \o x >>])
(* every operation of the administrator and the whitelist authorities, by everybody *)
ByAll == Flat([z \in 1..9 |-> LET a == Persons[z] IN
          << T1("FEE", [op |-> "initvv", p |-> "U1", adm |-> a, v |-> "ATT"]), T1("FEE", [op |-> "closevv", p |-> "U1", adm |-> a, v |-> "V1"]),
             T1("FEE", [op |-> "pclaim", adm |-> a]) >>
          \o Flat([p \in 1..4 |-> << [tWl(a, "V2", Progs[p], TRUE) EXCEPT !.fp = "FEE"], [tWl(a, "V1", Progs[p], FALSE) EXCEPT !.fp = "FEE"] >>])])
Tries(ts) == Flat([z \in 1..Len(ts) |-> Trial(Full(ts[z], "tale"))])
Dust == N(Pick(c0, 30, <<1, 2, 9, 99, 100, 500, 999, 5000>>))
SUBS == <<"rec/A1", "meta/A1", "cs/A1", "cr/A1", "ubuf/A1", "A1">>
Tales == <<
  (* finding F1: committed to nothing *)
  PathTo(18) \o Txs(<< tCm("V1", "A1", "PROG", N(1), Zero, TRUE, RawD(1, "d6")) >>) \o << [k |-> "push"] >> \o Txs(<<tFi("V1", "A1")>>) \o Rel("A1")
    \o Flat([z \in 1..4 |-> << [k |-> "push"], [k |-> "env", acc |-> "A1" :> <<Wal(Rent(0)), AccOf(SizeA, "d1", "PROG", Zero), AccOf(3, "d2", "PROG2", Rich), AccOf(8, "d2", "dlp", Zero)>>[z]] >>
         \o Tries(<< tCm("V1", "A1", "PROG", N(7), LA, TRUE, RawD(1, "d6")), tCm("V1", "A1", "PROG", N(7), Zero, TRUE, RawD(1, "d6")), tFi("V1", "A1"), tUn("V1", "A1", "PROG", "U1"), tDl("A1", "PROG", "U2", "V1"),
                     Bundle(<< tCm("V1", "A1", "PROG", N(7), Zero, TRUE, RawD(1, "d6")), tFi("V1", "A1"), tUn("V1", "A1", "PROG", "U1") >>) >>) \o << [k |-> "pop"] >>])
    \o << [k |-> "pop"] >>
    \o Both("A1", N(1000000), tFi("V1", "A1")) \o Txs(<< tCm("V1", "esc/U1/0", "sys", N(1), Zero, TRUE, Empty) >>)
    \o << [k |-> "push"] >> \o Txs(<<Bundle(<< tFi("V1", "esc/U1/0"), tUn("V1", "esc/U1/0", "sys", "U1") >>)>>) \o << [k |-> "pop"] >> \o Txs(<< tFi("V1", "esc/U1/0") >>) \o Rel("esc/U1/0"),
  (* an escrow nobody paid for *)
  PathTo(5) \o Txs(<< tDe("U1", "U1", 7), tDe("ATT", "U2", 254), tUp("U1", "U1", Zero, 7), tDe("U1", "U1", 7) >>) \o Rel("esc/U1/7"),
  (* four sessions of one account *)
  PathTo(10) \o Flat([z \in 1..4 |-> Session(z)]),
  (* whitelists grow and shrink *)
  PathTo(11) \o Txs(Grow("PROG", "UPA", TRUE)) \o Txs(<< tDl("A1", "PROG", "U1", "V1"), tDl("C1", "PROG2", "U1", "V1"), tCm("V2", "A1", "PROG", N(1), LA, FALSE, RawD(2, "d6")), tFi("V2", "A1"),
      tCm("V3", "A1", "PROG", N(1), LA, FALSE, RawD(2, "d6")), tFi("V3", "A1") >>) \o Txs(Grow("PROG2", "ADM", TRUE)) \o Txs(Grow("PROG", "ADM", FALSE))
    \o Txs(<< tCm("V1", "A1", "PROG", N(2), LA, FALSE, RawD(2, "d6")), tCm("V3", "C1", "PROG2", N(2), Zero, FALSE, RawD(2, "d6")), tWl("UPA", "V1", "PROG", TRUE), tCm("V1", "A1", "PROG", N(2), LA, TRUE, RawD(2, "d6")) >>)
    \o Rel("A1") \o Rel("C1") \o Txs(Grow("PROG2", "U2", FALSE)) \o Txs(Grow("sys", "ADM", TRUE)) \o Txs(Grow("dlp", "ADM", TRUE)),
  (* a long list of approved validators *)
  LET l0(q) == [l |-> Rent(12 + 32 * Len(q)), o |-> "dlp", d |-> [t |-> "cfg", v |-> q]]
      part(n) == SubSeq(Sides, 1, n)
      commits == << tCm("V1", "A1", "PROG", N(1), LA, FALSE, RawD(2, "d6")), tCm("V2", "A1", "PROG", N(1), LA, FALSE, RawD(2, "d6")), tCm("V3", "A1", "PROG", N(1), LA, FALSE, RawD(2, "d6")) >>
      changes == << tWl("UPA", "V1", "PROG", TRUE), tWl("ADM", "V3", "PROG", TRUE), tWl("ADM", "V2", "PROG", FALSE), tWl("UPA", "V1", "PROG", FALSE), tWl("UPA", "A2", "PROG", TRUE), tWl("UPA", "A2", "PROG", FALSE) >>
      at1(q) == << [k |-> "env", acc |-> "cfg/PROG" :> l0(q)] >> \o Tries(commits \o changes)
      long(n) == at1(part(n)) \o at1(<<"V1">> \o part(n)) \o at1(part(n) \o <<"V2">>) \o at1(part(n) \o <<"V1", "V2", "V3">>)
                 \o Txs(<<tWl("ADM", "V3", "PROG", FALSE), tWl("UPA", "V2", "PROG", TRUE)>>) \o Tries(commits \o changes)
  IN PathTo(11) \o Txs(<< tDl("A1", "PROG", "U1", "V1") >>) \o at1(<<>>) \o long(7) \o long(8) \o long(9) \o long(15) \o long(16) \o long(31) \o long(32) \o long(63) \o long(64) \o long(72),
  (* whoever holds the upgrade authorities, or nobody *)
  PathTo(11) \o Flat([z \in 1..6 |-> << [k |-> "env", acc |-> "pd/dlp" :> Pd(<<"none", "UPA", "V1", "ATT", "U2", "M1">>[z])] >> \o Tries(ByAll)])
     \o Flat([z \in 1..4 |-> << [k |-> "env", acc |-> ("pd/dlp" :> Pd(<<"ADM", "UPA", "ADM", "none">>[z])) @@ ("pd/PROG" :> Pd(<<"none", "none", "ADM", "none">>[z]))] >> \o Tries(ByAll)]),
  (* deposits everywhere, at every phase of a session *)
  LET at1(t) == Flat([z \in 1..6 |-> Both(SUBS[z], N(1000000), t)]) \o Flat([z \in 1..6 |-> Both(SUBS[z], Rent(0), t)])
              \o Flat([z \in 1..6 |-> Both(SUBS[z], Dust, t)]) \o Both("A1", N(1), t)
              \o Flat([z \in 1..4 |-> Both(<<"fv", "vv/V1", "cfg/PROG", "buf/A1/PROG">>[z], N(1000000), t)])
      ts == << tDl("A1", "PROG", "U1", "V1"), tFi("V1", "A1"), tCm("V1", "A1", "PROG", N(3), Add(LA, N(77)), FALSE, RawD(40, "d6")), tFi("V1", "A1"),
               tCm("V1", "A1", "PROG", N(5), Add(LA, N(7)), TRUE, RawD(4, "d6")), tCm("V1", "A1", "PROG", N(1), LA, TRUE, RawD(4, "d6")), tFi("V1", "A1"), tUn("V1", "A1", "PROG", "U1"), tDl("A1", "PROG", "U2", "V2") >>
  IN PathTo(11) \o Flat([z \in 1..Len(ts) |-> at1(ts[z]) \o Txs(<<ts[z]>>)]),
  LET at1(t) == Flat([z \in 1..8 |-> Both(<<"esc/U1/0", "rec/esc/U1/0", "meta/esc/U1/0", "buf/esc/U1/0/sys", "fv", "vv/V3", "vv/V1", "cfg/PROG">>[z], N(1000000), t)])
              \o Flat([z \in 1..5 |-> Both(<<"esc/U1/0", "rec/esc/U1/0", "vv/V3", "fv", "cfg/PROG">>[z], Rent(0), t)])
              \o Flat([z \in 1..5 |-> Both(<<"esc/U1/0", "rec/esc/U1/0", "vv/V3", "fv", "cfg/PROG">>[z], Dust, t)])
      ts == << T1("FEE", [op |-> "initfv", p |-> "FEE"]), tIv("V1"), tIv("V3"), tUp("U1", "U1", N(5000), 0), tUp("ATT", "U1", Zero, 0), tDe("ATT", "U1", 0), tUp("U2", "U1", N(9), 0), tWl("UPA", "V1", "PROG", TRUE), tWl("ADM", "V2", "PROG", TRUE),
               tCm("V1", "esc/U1/0", "sys", N(3), Add(Rent(0), N(4000)), TRUE, Empty), tFi("V1", "esc/U1/0"), tVc("V1", FALSE, Zero), tVc("V1", TRUE, Zero), tUn("V1", "esc/U1/0", "sys", "ATT"),
               tCe("U1", 0), tCe("U1", 0), tUp("U1", "U1", N(890880), 0), T1("ADM", [op |-> "pclaim", adm |-> "ADM"]), T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> "V3"]), tIv("V3") >>
  IN PathTo(1) \o Flat([z \in 1..Len(ts) |-> at1(ts[z]) \o Txs(<<ts[z]>>)]),
  (* balances that pass through (almost) nothing within one transaction *)
  LET x == "esc/U1/0"
      up == [op |-> "topup", p |-> "FEE", u |-> "U1", amt |-> Rent(0), idx |-> 0]
      de == [op |-> "delesc", p |-> "FEE", u |-> "U1", freq |-> N(7), seeds |-> <<>>, val |-> "sys", idx |-> 0]
      fiE == [op |-> "finalize", v |-> "V1", x |-> x]  unE == [op |-> "undelegate", v |-> "V1", x |-> x, own |-> "sys", rp |-> "U1"]
      ceE == [op |-> "closeesc", u |-> "U1", idx |-> 0]
      gift(k, l) == [op |-> "xfer", from |-> "FEE", to |-> k, amt |-> l]
      cmE(l) == [op |-> "commit", v |-> "V1", x |-> x, own |-> "sys", slot |-> N(9), lam |-> l, und |-> TRUE, d |-> Empty]
      fiA == [op |-> "finalize", v |-> "V1", x |-> "A1"]  unA == [op |-> "undelegate", v |-> "V1", x |-> "A1", own |-> "PROG", rp |-> "U1"]
      cmA(l) == [op |-> "commit", v |-> "V1", x |-> "A1", own |-> "PROG", slot |-> N(9), lam |-> l, und |-> TRUE, d |-> RawD(2, "d5")]
      tx(ops) == [fp |-> "V1", ops |-> ops, cb |-> "honest"]
      R0 == Rent(0)
      esc == << <<fiE>>, <<fiE, up>>, <<fiE, up, ceE>>, <<fiE, unE>>, <<fiE, unE, ceE>>, <<fiE, unE, up>>, <<fiE, unE, up, de>>, <<fiE, unE, up, de, ceE>>, <<fiE, gift(x, R0)>>, <<fiE, gift(x, R0), unE, ceE>>,
                <<fiE, cmE(Zero), gift(x, R0)>>, <<fiE, cmE(R0), fiE>>, <<fiE, cmE(R0), fiE, unE>>, <<fiE, up, cmE(N(1)), fiE>>, <<fiE, up, cmE(N(1)), fiE, gift(x, R0)>>, <<up, fiE>>, <<gift(x, R0), fiE>>,
                <<gift(x, N(1)), fiE, unE>>, <<fiE, fiE, up>>, <<unE, fiE>>, <<ceE, fiE, up>>, <<fiE, de, up>>, <<fiE, unE, de>> >>
      acc == << <<fiA>>, <<fiA, gift("A1", LA)>>, <<fiA, unA>>, <<fiA, cmA(LA), fiA>>, <<fiA, cmA(LA), fiA, unA>>, <<fiA, cmA(Zero), gift("A1", LA)>>, <<fiA, cmA(Zero), gift("A1", LA), fiA, gift("A1", LA)>>, <<gift("A1", LA), fiA, unA>>,
                <<fiA, gift("A1", LA), unA>>, <<fiA, fiA, unA>>, <<unA, fiA>> >>
      dataE(u) == [cmE(Dat(Before(19), "rec/esc/U1/0").lam) EXCEPT !.d = RawD(9, "d4"), !.und = u]
      bound(u) == << [k |-> "push"] >> \o Txs(<< tx(<<dataE(u)>>) >>) \o Rel(x) \o Txs(<< tx(<<fiE>>) >>) \o Rel(x) \o << [k |-> "pop"] >>
  IN PathTo(19) \o bound(FALSE) \o bound(TRUE) \o Flat([z \in 1..7 |-> LET l == <<Zero, N(1), N(890879), R0, N(890881), N(100), Add(R0, Tip(5))>>[z] IN
          << [k |-> "push"] >> \o Txs(<< tx(<<cmE(l)>>), tx(<<cmA(l)>>) >>) \o Tries([q \in 1..Len(esc) |-> tx(esc[q])]) \o Tries([q \in 1..Len(acc) |-> tx(acc[q])]) \o << [k |-> "pop"] >>]),
  (* fortunes: nothing overflows, nothing is cut off *)
  LET M == Before(19)
      more(k, l) == k :> [Acc(M, k) EXCEPT !.l = Add(@, l)]
      rA == Dat(M, "rec/A1").lam
      vc(s, a) == tVc("V1", s, a)
      seq(F) == << tCm("V1", "A1", "PROG", N(7), Add(rA, F), FALSE, RawD(9, "d3")), tFi("V1", "A1"), tCm("V2", "A1", "PROG", N(8), Add(rA, N(5)), TRUE, RawD(9, "d6")), tFi("V2", "A1"), tUn("V2", "A1", "PROG", "U1"),
                   tVc("V2", FALSE, Zero), tVc("V1", TRUE, F), vc(FALSE, Zero), T1("ADM", [op |-> "pclaim", adm |-> "ADM"]), tDl("A1", "PROG", "U1", "V1") >>
      esc(F) == << tUp("U1", "V1", F, 0), tDe("FEE", "V1", 0), tUp("FEE", "V1", F, 0), tCm("V1", "esc/V1/0", "sys", N(8), Add(N(890881), F), TRUE, Empty), tFi("V1", "esc/V1/0"), tUn("V1", "esc/V1/0", "sys", "FEE"), tCe("V1", 0) >>
      one(F) == << [k |-> "push"],
                   [k |-> "env", acc |-> more("V1", F) @@ more("V2", F) @@ more("FEE", Add(F, F)) @@ more("U1", F) @@ more("vv/V1", F) @@ more("vv/V3", F) @@ more("fv", F) @@ more("rec/A1", F) @@ more("meta/A1", F) @@ more("esc/U1/0", F)] >>
                \o Tries(<< vc(FALSE, Zero), vc(TRUE, F), vc(TRUE, Sub(F, N(1))), vc(TRUE, Add(F, N(1))), vc(TRUE, Div10(F)), vc(TRUE, <<0, 42, 94967296>>), vc(TRUE, <<0, 42, 94967295>>), vc(TRUE, <<0, 42, 94967301>>),
                             T1("ADM", [op |-> "pclaim", adm |-> "ADM"]), T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> "V3"]), tCm("V1", "A1", "PROG", N(7), Add(rA, Add(F, Rich)), FALSE, RawD(9, "d3")),
                             tCm("V1", "A1", "PROG", N(7), Add(rA, Add(F, F)), FALSE, RawD(9, "d3")) >>)
                \o Txs(seq(F)) \o Txs(esc(F)) \o << [k |-> "pop"] >>
  IN PathTo(19) \o Flat([z \in 1..7 |-> one(<< <<0, 42, 94967290>>, <<0, 42, 94967297>>, <<0, 99999999, 1>>, <<1, 2, 3>>, <<10, 0, 19>>, <<30, 77, 7>>, N(99999999) >>[z])]),
  (* accounts of all sizes, from one to the next *)
  LET sizes == <<1, 1024, 0, 5000, 4097, 9, 10240, 8, 1025, 10239, 0, 10240, 10241, 2048, 1>>
      buf(n) == << [k |-> "env", acc |-> "SB1" :> [l |-> Rent(n), o |-> "PROG2", d |-> RawD(n, "d4")]] >>
      bal(n, z) == IF z % 3 = 0 THEN LA ELSE Add(Rent(n), N(z))
      step(z) == LET n == sizes[z]  v == IF z % 2 = 0 THEN "V1" ELSE "V2" IN
                 (IF n <= 1024 /\ z % 4 # 0 THEN Txs(<< tCm(v, "A1", "PROG", N(z), bal(n, z), FALSE, RawD(n, "d3")) >>)
                  ELSE buf(n) \o << Full(tCb(v, "A1", "PROG", N(z), bal(n, z), FALSE), "tale") >>)
                 \o Txs(<< tFi(v, "A1") >>) \o << [k |-> "push"] >> \o Txs(<< tCm(v, "A1", "PROG", N(z), bal(n, z), TRUE, RawD(z, "d1")), tFi(v, "A1"), tUn(v, "A1", "PROG", "U1"), tDl("A1", "PROG", "U2", v), tFi(v, "A1") >>) \o << [k |-> "pop"] >> \o Rel("A1")
  IN PathTo(11) \o Txs(<< tDl("A1", "PROG", "U1", "V1") >>) \o Flat([z \in 1..Len(sizes) |-> step(z)]),
  (* direct and buffered commits side by side *)
  LET cmp(op, buf) == << [k |-> "push"], [k |-> "env", acc |-> "SB1" :> buf], Full(T1(op.v, op), "direct"), [k |-> "pop"],
                         [k |-> "push"], [k |-> "env", acc |-> "SB1" :> buf],
                         Full(T1(op.v, [op |-> "commitb", v |-> op.v, x |-> op.x, own |-> op.own, buf |-> "SB1", slot |-> op.slot, lam |-> op.lam, und |-> op.und]), "buffered"),
                         [k |-> "cmp", kind |-> "buf", at |-> "SB1"], [k |-> "pop"] >>
      B(d, o) == [l |-> Rent(DLen(d)), o |-> o, d |-> d]
      ops(x, own, l) == Flat([s \in 1..3 |-> Flat([m \in 1..6 |-> Flat([v \in 1..3 |->
                  << [op |-> "commit", v |-> <<"V1", "V2", "V3">>[v], x |-> x, own |-> own, slot |-> N(<<0, 3, 4>>[s]),
                      lam |-> <<l, Add(l, N(5)), Sub(l, N(5)), Zero, Add(l, <<0, 950, 0>>), Add(l, Rent(200))>>[m], und |-> (m + v) % 2 = 0,
                      d |-> IF IF Len(x) > 3 THEN SubSeq(x, 1, 3) = "esc" ELSE FALSE THEN Empty ELSE RawD(<<0, 1, 33, 8, 200, 1024>>[((s + m + v) % 6) + 1], <<"d4", "t1", "z">>[((s + v) % 3) + 1])] >>])])])
      at1(x, own, l) == LET q == ops(x, own, l) IN Flat([z \in 1..Len(q) |-> cmp(q[z], B(q[z].d, Progs[(z % 4) + 1]))])
      (* the buffer may be any account at all: the delegated account itself, another one, somebody's pending state, a wallet, nothing *)
      of(k, d) == Flat([v \in 1..2 |-> IF k = <<"V1", "V2">>[v] THEN <<>> ELSE LET op == [op |-> "commit", v |-> <<"V1", "V2">>[v], x |-> "A1", own |-> "PROG", slot |-> N(8), lam |-> LA, und |-> v = 2, d |-> d] IN
                  << [k |-> "push"], Full(T1(op.v, op), "direct"), [k |-> "pop"], [k |-> "push"],
                     Full(T1(op.v, [op |-> "commitb", v |-> op.v, x |-> "A1", own |-> "PROG", buf |-> k, slot |-> op.slot, lam |-> LA, und |-> op.und]), "buffered"),
                     [k |-> "cmp", kind |-> "buf", at |-> k], [k |-> "pop"] >>])
      kinds == Txs(<< tCm("V1", "A1", "PROG", N(7), LA, FALSE, RawD(7, "d2")), tFi("V1", "A1"), tCm("V2", "A2", "PROG", N(3), LB, FALSE, RawD(3, "d3")) >>)
               \o of("A1", RawD(7, "d2")) \o of("cs/A2", RawD(3, "d3")) \o Flat([z \in 1..10 |-> of(<<"esc/U1/0", "U1", "V1", "V2", "FEE", "ADM", "ubuf/A1", "W1", "buf/A1/PROG", "cfg/sys">>[z], Empty)])
               \o Flat([z \in 1..11 |-> Trial(Full(T1("V1", [op |-> "commitb", v |-> "V1", x |-> "A1", own |-> "PROG", buf |-> <<"V1", "cs/A1", "cr/A1", "meta/A1", "rec/A1", "rec/A2", "fv", "vv/V1", "cfg/PROG", "pd/dlp", "cr/A2">>[z], slot |-> N(8), lam |-> LA, und |-> FALSE]), "tale"))])
  IN PathTo(18) \o << [k |-> "push"] >> \o kinds \o << [k |-> "pop"] >> \o at1("A1", "PROG", LA) \o at1("esc/U1/0", "sys", Add(Rent(0), Tip(5))) \o Txs(<< tCm("V1", "A1", "PROG", N(3), LA, FALSE, RawD(7, "d2")) >>) \o at1("A1", "PROG", LA)
     \o Txs(<< tFi("V1", "A1") >>) \o at1("A1", "PROG", LA) \o Txs(<< tWl("ADM", "V3", "PROG", FALSE), tCm("V2", "A1", "PROG", N(3), LA, TRUE, RawD(7, "d2")) >>) \o at1("A1", "PROG", LA)
     \o Txs(<< tFi("V2", "A1") >>) \o at1("A1", "PROG", LA) \o at1("A2", "PROG", LB)
  >>


(* ------------------- histories in which unlikely circumstances meet ------------------- *)
(* Who plays which part, what was sent where and when, how one commit relates to the next: *)
(* every history draws all of it anew.                                                    *)
NGrid == IF Prop = "ALL" THEN 400 ELSE IF Prop \in {"C17", "C18", "C19", "C20", "C21", "C22", "C23", "C27", "C30"} THEN 240 ELSE 320
GridOf(p) == CASE p \in {"C17", "C18", "C19"} -> <<"F", "F", "F", "S">> [] p = "C20" -> <<"W", "W", "W", "S">> [] p \in {"C21", "C22", "C23"} -> <<"E", "E", "E", "S">>
               [] p \in {"C27", "C30"} -> <<"E", "F", "W", "E">> [] p \in {"C24", "C25", "C29", "C31", "C32", "ALL"} -> <<"S", "S", "E", "S", "F", "S", "W">> [] OTHER -> <<"S", "S", "S", "E">>
Amounts == <<N(1), N(9), N(4999), N(890879), Rent(0), Rent(200), N(20000000), <<0, 10, 0>>, <<0, 60, 7>>>>
Sprinkle(c, i, pc, ks) == IF Chance(c, i, pc) THEN << Dep(Pick(c, i + 1, ks), IF Chance(c, i + 3, 70) THEN Pick(c, i + 2, Amounts) ELSE N(1 + D(c, i + 4, 46337) * D(c, i + 5, 900))) >> ELSE <<>>
Gone(c, i, pc, p) == IF Chance(c, i, pc) THEN << [k |-> "env", acc |-> p :> Pick(c, i + 1, <<Wal(Zero), Wal(N(1)), AccOf(9, "d2", "PROG2", Zero), AccOf(0, "d2", "PROG", Zero)>>)] >> ELSE <<>>
(* any number, in the small, the middle and the large *)
Rand(c, i) == Pick(c, i, <<N(D(c, i + 1, 300)), N(D(c, i + 1, 46337) * 43 + D(c, i + 2, 43)), <<0, D(c, i + 1, 46337), D(c, i + 2, 46337) * 2000>>, <<D(c, i + 1, 1840), D(c, i + 2, 46337) * 2000, 7>>>>)
Capped(v) == IF Lt(U64Max, v) THEN U64Max ELSE v
Sized(c, i) == Pick(c, i, <<16, 31, 32, 48, 64, 80, 88, 96, 97, 127, 128, 255, 256, 257, 512, 1000, D(c, i + 1, 40), D(c, i + 1, 400), D(c, i + 1, 400), D(c, i + 1, 1024)>>)
GridS(c) ==
  LET esc == Chance(c, 1, 25)
      own1 == esc /\ Chance(c, 220, 30)        \* an account with a key of its own
      x == IF own1 THEN "W1" ELSE IF esc THEN "esc/U1/0" ELSE Pick(c, 2, <<"A1", "A1", "A2">>)
      own == IF esc THEN "sys" ELSE "PROG"
      base == IF own1 THEN Add(Rent(0), N(300000)) ELSE IF esc THEN N(890880 + 300000) ELSE IF x = "A1" THEN LA ELSE LB
      p == Pick(c, 3, <<"U1", "U1", "V1", "V2", "ATT", "ADM", "U2", "UPA", "M1", "M1">>)
      val == Pick(c, 4, <<"sys", "V1", "V2", "ADM", "PROG">>)
      v1 == Pick(c, 5, <<"V1", "V1", "V2", "ADM", "UPA", "U1">>)
      v2 == IF Chance(c, 6, 65) THEN v1 ELSE Pick(c, 7, <<"V1", "V2", "ADM", "UPA">>)
      s1 == Pick(c, 8, <<Zero, N(1), N(7), <<0, 42, 94967296>>, <<920, 1, 1>>, Rand(c, 200), Rand(c, 200)>>)
      s2 == IF Chance(c, 9, 15) THEN Free(s1, N(1)) ELSE Capped(Add(s1, Pick(c, 10, <<Zero, N(1), N(99), N(9001), N(500000), <<0, 100, 0>>, <<921, 0, 0>>, N(D(c, 203, 300)), N(D(c, 204, 46337) * 1000)>>)))
      lams == <<base, Add(base, N(5)), Sub(base, N(5)), Add(base, N(20000000)), Sub(base, N(200000)), Sub(base, N(1)), Add(base, N(D(c, 205, 300))), Add(base, N(D(c, 206, 46337) * 1000 + D(c, 207, 1000))), Sub(base, N(D(c, 208, 20000))), <<0, D(c, 209, 800), D(c, 206, 46337) * 2000>>>>
      l1 == Pick(c, 11, lams)
      l2 == IF Chance(c, 12, 45) THEN l1 ELSE Pick(c, 13, lams)
      n0 == IF x = "A1" THEN SizeA ELSE SizeB
      d1 == IF esc THEN Empty ELSE RawD(Pick(c, 14, <<n0, n0, 0, 1, 200, Sized(c, 210), Sized(c, 210), Sized(c, 210)>>), Pick(c, 15, <<"d1", "m1", "d6", "z", "f", "k0", "d4">>))
      d2 == IF esc THEN Empty ELSE RawD(IF Chance(c, 16, 50) THEN d1.n ELSE Pick(c, 17, <<n0, 0, 9, 300, Sized(c, 212), Sized(c, 212)>>), Pick(c, 18, <<"d2", "m1", "t1", "z", "f", "k1", "d3">>))
      u1 == Chance(c, 19, 30)  u2 == Chance(c, 20, 60)
      ks == <<x, x, "rec/" \o x, "meta/" \o x, "cs/" \o x, "cs/" \o x, "cr/" \o x, "ubuf/" \o x, "vv/V1", "vv/" \o v1, "fv", "cfg/PROG">>
      dep(i) == Sprinkle(c, 100 + 10 * i, 28, ks)
      tx(t) == << Full(t, "grid") >>
      dl == IF own1 THEN << T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> "W1", amt |-> N(300000)]),
                              [fp |-> "FEE", ops |-> << [op |-> "assign", x |-> "W1", to |-> "dlp"],
                                 [op |-> "delegate", p |-> p, x |-> "W1", own |-> "sys", freq |-> Zero, seeds |-> <<>>, val |-> val] >>, cb |-> "honest"] >>
            ELSE IF esc THEN << tUp("FEE", "U1", N(300000), 0), [tDe(p, "U1", 0) EXCEPT !.ops = [@ EXCEPT ![1] = [@ EXCEPT !.val = val]]] >> ELSE << [tDl(x, "PROG", p, val) EXCEPT !.ops = [@ EXCEPT ![1] = [@ EXCEPT !.freq = IF Chance(c, 214, 50) THEN @ ELSE Pick(c, 215, <<Zero, N(1), N(D(c, 216, 46337)), <<0, 42, 94967295>>, <<0, 21, 47483648>>, <<0, D(c, 216, 42), 5>>>>)]]] >>
      cm(i, v, s, l, u, d) == IF Chance(c, 60 + i, 15)
                               THEN << [k |-> "env", acc |-> "SB1" :> [l |-> Rent(DLen(d)), o |-> Pick(c, 70 + i, <<"PROG", "PROG2", "sys">>), d |-> d]] >> \o tx(tCb(v, x, own, s, l, u))
                               ELSE tx(tCm(v, x, own, s, l, u, d))
      other == Pick(c, 21, <<"V1", "V2", "V3", "ADM">>)
      un(v) == tx(tUn(v, x, own, p))
      (* meanwhile: another account, the vaults, the list *)
      y == IF x = "A1" THEN "A2" ELSE "A1"
      ly == IF y = "A1" THEN LA ELSE LB
      vy(i) == Pick(c, 230 + i, <<"V1", "V2", v1, v2>>)
      side(i) == LET r == D(c, 240 + i, 40) IN
                 IF r < 4 THEN tx(tDl(y, "PROG", Pick(c, 221, <<"U1", "U2", p>>), val))
                 ELSE IF r < 8 THEN tx(tCm(vy(i), y, "PROG", Pick(c, 250 + i, <<s1, s2, U64Max>>), Pick(c, 260 + i, <<ly, l1, l2, Sub(ly, N(9))>>), Chance(c, 270 + i, 60), IF Chance(c, 280 + i, 50) /\ ~esc THEN d1 ELSE RawD(3, "d4")))
                 ELSE IF r < 11 THEN tx(tFi(vy(i), y))
                 ELSE IF r < 13 THEN tx(tUn(vy(i), y, "PROG", Pick(c, 221, <<"U1", "U2", p>>)))
                 ELSE IF r = 13 THEN tx(T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> v1]))
                 ELSE IF r = 14 THEN tx(T1("FEE", [op |-> "closevv", p |-> "FEE", adm |-> "ADM", v |-> v2])) \o dep(10) \o tx(tIv(v2))
                 ELSE IF r = 15 THEN tx(tWl(Pick(c, 290 + i, <<"UPA", "ADM">>), v1, own, Chance(c, 300 + i, 40)))
                 ELSE IF r = 16 THEN tx(tWl("UPA", v2, own, FALSE)) \o tx(tWl("ADM", Pick(c, 310 + i, <<"V3", "V1", v2>>), own, TRUE))
                 ELSE IF r = 17 THEN tx(tVc(v1, Chance(c, 222, 50), Rand(c, 320)))
                 ELSE <<>>
      rel(i) == IF Prop \in {"C28", "ALL"} /\ Chance(c, 80 + i, 50) THEN Rel(x) ELSE <<>>
  IN << [k |-> "push"] >> \o dep(1) \o Flat([z \in 1..Len(dl) |-> tx(dl[z])]) \o dep(2) \o side(0) \o (IF Chance(c, 22, 25) THEN tx(tFi(v1, x)) ELSE <<>>)
     \o cm(1, v1, s1, l1, u1, d1) \o dep(3) \o rel(1) \o side(1) \o cm(2, v2, s2, l2, u2, d2) \o dep(4) \o side(2)
     \o << [k |-> "push"] >> \o tx(tFi(other, x)) \o un(other) \o << [k |-> "pop"] >>
     \o tx(tFi(v1, x)) \o dep(5) \o side(3) \o Gone(c, 30, 12, p) \o rel(2) \o cm(3, v2, s2, l2, u2, d2) \o dep(6) \o side(4) \o un(v1) \o tx(tFi(v2, x)) \o dep(7) \o un(other)
     \o cm(4, v1, U64Max, base, TRUE, d1) \o dep(8) \o side(5) \o tx(tFi(v1, x)) \o side(6) \o Gone(c, 40, 12, p) \o dep(9) \o rel(3) \o un(v1)
     \o (IF Chance(c, 23, 30) THEN (IF own1 THEN <<>> ELSE IF esc THEN tx(tCe("U1", 0)) ELSE tx(tDl(x, "PROG", p, val)) \o tx(tFi(v1, x))) ELSE <<>>) \o << [k |-> "pop"] >>
GridE(c) ==
  LET u == Pick(c, 1, <<"U1", "U1", "V1", "ADM", "ATT", "M1">>)
      i == Pick(c, 2, Idxs(u))
      x == EscKey(u, i)
      p(j) == Pick(c, 10 + j, <<u, u, "FEE", "U2", "V1", "ATT", "M1">>)
      amt(j) == Pick(c, 20 + j, <<Zero, N(1), N(5000), N(890879), N(890880), N(890881), <<0, 10, 0>>, <<0, 899, 99990000>>, Rand(c, 200 + 3 * j), Rand(c, 200 + 3 * j)>>)
      v == Pick(c, 30, <<"V1", "V2", "ADM", u>>)
      lam(j) == Pick(c, 40 + j, <<Zero, N(1), N(890879), N(890880), N(895880), Add(amt(1), N(890880)), Add(Add(amt(1), amt(2)), N(890880)), <<0, 20, 0>>>>)
      ks == <<x, x, x, "rec/" \o x, "meta/" \o x, "cs/" \o x, "cr/" \o x>>
      dep(j) == Sprinkle(c, 100 + 10 * j, 25, ks)
      tx(pc, j, t) == IF Chance(c, 50 + j, pc) THEN << Full(t, "grid") >> ELSE <<>>
      pd == p(3)
      de == [tDe(pd, u, i) EXCEPT !.ops = [@ EXCEPT ![1] = [@ EXCEPT !.val = Pick(c, 31, <<"sys", "V1", "V2">>)]]]
  IN << [k |-> "push"] >> \o dep(1) \o tx(30, 1, tCe(u, i)) \o tx(85, 2, tUp(p(1), u, amt(1), i)) \o dep(2) \o tx(25, 3, tUp(p(2), u, amt(2), i)) \o tx(90, 4, de) \o dep(3)
     \o tx(50, 5, tUp(p(4), u, amt(3), i)) \o tx(20, 6, tCe(u, i)) \o tx(85, 7, tCm(v, x, "sys", N(3), lam(1), Chance(c, 32, 60), Empty)) \o dep(4) \o tx(25, 8, tUp(p(5), u, amt(4), i))
     \o tx(90, 9, tFi(v, x)) \o dep(5) \o tx(40, 10, tUp(p(6), u, amt(5), i)) \o tx(60, 11, tCm(v, x, "sys", N(4), lam(2), TRUE, Empty)) \o tx(90, 12, tFi(v, x)) \o tx(30, 17, tUp(p(6), u, amt(6), i))
     \o Gone(c, 33, 10, pd) \o (IF Prop = "C28" THEN Rel(x) ELSE <<>>) \o tx(90, 13, tUn(v, x, "sys", pd)) \o dep(6) \o tx(50, 14, tUp(p(2), u, amt(6), i)) \o tx(70, 15, tCe(u, i)) \o tx(30, 18, tUp(p(1), u, amt(7), i)) \o tx(40, 16, de) \o << [k |-> "pop"] >>
GridF(c) ==
  LET v == Pick(c, 1, <<"V1", "V2", "V3", "ADM", "ATT", "UPA", "U1", "M1">>)
      k == "vv/" \o v
      p(j) == Pick(c, 10 + j, <<"FEE", "FEE", v, "ADM", "U1", "M1">>)
      adm(j) == IF Chance(c, 20 + j, 80) THEN "ADM" ELSE Pick(c, 30 + j, <<"UPA", "U1", v, "M1">>)
      iv(j) == T1("FEE", [op |-> "initvv", p |-> p(j), adm |-> adm(j), v |-> v])
      cl(j) == T1("FEE", [op |-> "closevv", p |-> p(j), adm |-> adm(j), v |-> v])
      pc(j) == T1(adm(j), [op |-> "pclaim", adm |-> adm(j)])
      dep(j) == Sprinkle(c, 100 + 10 * j, 55, <<k, k, "fv", v, "vv/V1">>)
      amt(j) == Pick(c, 40 + j, <<Zero, N(1), N(9), N(10), N(11), N(99), N(4999), N(889920), Rent(0), N(20000000), <<0, 10, 0>>, U64Max, Rand(c, 200 + 3 * j), Rand(c, 200 + 3 * j)>>)
      vc(j) == tVc(v, Chance(c, 50 + j, 60), amt(j))
      op(j) == LET r == D(c, 60 + j, 10) IN IF r < 2 THEN iv(j) ELSE IF r < 7 THEN vc(j) ELSE IF r < 8 THEN pc(j) ELSE cl(j)
  IN << [k |-> "push"] >> \o (IF Chance(c, 2, 10) THEN << [k |-> "env", acc |-> "pd/dlp" :> Pd(Pick(c, 3, <<"none", "UPA", v, "M1">>))] >> ELSE <<>>)
     \o dep(0) \o << Full(iv(0), "grid") >> \o Flat([j \in 1..8 |-> dep(j) \o << Full(op(j), "grid") >>]) \o << [k |-> "pop"] >>
GridW(c) ==
  LET names == <<"V1", "V2", "V3", "ADM", "UPA", "U1", "PROG", "sys", "A1", "fv", "cfg/PROG", "vv/V1">>
      prog == Pick(c, 1, <<"PROG", "PROG", "PROG2", "dlp", "sys">>)
      a(j) == IF Chance(c, 10 + j, 60) THEN (CASE prog = "PROG" -> "UPA" [] prog = "PROG2" -> "U2" [] OTHER -> "ADM") ELSE Pick(c, 20 + j, <<"ADM", "UPA", "U2", "V1", "ATT">>)
      v(j) == Pick(c, 30 + j, names)
      dep(j) == Sprinkle(c, 100 + 10 * j, 30, <<"cfg/" \o prog, "cfg/PROG">>)
      q0 == LET m == D(c, 2, 12) IN IF m < 4 THEN <<>> ELSE << [k |-> "env", acc |-> ("cfg/" \o prog) :> [l |-> Add(Rent(12 + 32 * (m - 4)), Pick(c, 3, <<Zero, N(1), Rent(32)>>)), o |-> "dlp", d |-> [t |-> "cfg", v |-> SubSeq(names, 1, m - 4)]]] >>
      x == IF prog = "PROG2" THEN "C1" ELSE "A1"
      l == IF x = "A1" THEN LA ELSE InitLedger["C1"].l
      cm(j) == tCm(Pick(c, 40 + j, <<"V1", "V2", "V3">>), x, IF x = "C1" THEN "PROG2" ELSE "PROG", N(1), l, FALSE, RawD(2, "d6"))
  IN << [k |-> "push"] >> \o q0 \o dep(0) \o Flat([j \in 1..7 |-> << Full(tWl(a(j), v(j), prog, Chance(c, 50 + j, 60)), "grid") >> \o dep(j)
                                                       \o (IF j % 3 = 0 THEN Trial(Full(cm(j), "grid")) ELSE <<>>)]) \o << [k |-> "pop"] >>
Grid(g, z) == LET c == <<Seed0 + 40000, 31 * z + 1000 * g>>  w == Pick(<<0, z>>, g, GridOf(Prop)) IN
  CASE w = "S" -> GridS(c) [] w = "E" -> GridE(c) [] w = "F" -> GridF(c) [] OTHER -> GridW(c)
GridLen == 40
Grids(g) == PathTo(11) \o Txs(<< tIv("ADM"), tIv("UPA"), tIv("U1"), tWl("UPA", "ADM", "PROG", TRUE), tWl("UPA", "UPA", "PROG", TRUE), tWl("ADM", "U1", "PROG", TRUE) >>)
            \o (IF g % 3 = 0 THEN Txs(<< tDl("C1", "PROG2", "U1", "V1"), tDl("A1", "PROG", "U1", "V1") >>) ELSE Txs(<< tDl("C1", "PROG2", "U1", "V1") >>))
            \o Flat([z \in 1..GridLen |-> Grid(g, z)])

(* nothing depends on how much time has passed: nearly half of all trials happen later *)
Later(c) == IF Chance(c, 77, 45) THEN << [k |-> "slot", slot |-> Add(N(50), Pick(c, 78, Leaps))] >> ELSE <<>>
Timed(s) == Flat([z \in 1..Len(s) |-> IF s[z].k = "push" THEN << s[z] >> \o Later(<<Seed0, z>>) ELSE << Through(<<Seed0, z, 5>>, s[z]) >>])
VARIABLE at
NStops == Len(Script) + 1
NT == Len(Tales)
TalesOf(p) == ((1..NT) \ ((IF p \in {"C29", "ALL"} THEN {} ELSE {7, 8}) \cup (IF p \in {"C33", "ALL"} THEN {} ELSE {12}))) \cup {NT + g : g \in 1..(NGrid \div GridLen)}
Behaviour(n) == IF n <= NStops THEN Timed(Stop(n)) ELSE LET z == n - NStops IN
                IF z > NT THEN Timed(Grids(z - NT)) ELSE IF z \in {7, 8, 12} THEN Tales[z] ELSE Timed(Tales[z])
Init == at \in (1..NStops) \cup {NStops + z : z \in TalesOf(Prop)}
Next == /\ at > 0
        /\ JsonSerialize(OutDir \o "/t" \o ToString(at) \o ".json", Behaviour(at))
        /\ at' = 0 - at
Spec == Init /\ [][Next]_at
=============================================================================
