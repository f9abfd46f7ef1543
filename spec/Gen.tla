-------------------------------- MODULE Gen --------------------------------
(* Behaviours of the specification, to be replayed on the real program.      *)
(* Every seed is an initial state; from there the steps are determined by a  *)
(* hash of (seed, step), so a run is reproducible.  The ledger L the          *)
(* specification predicts guides the choice of the next operation towards    *)
(* deep histories; the recorded behaviour is judged by Trace.tla.            *)
EXTENDS Calls, Choice, Json, IOUtils

Prop == IOEnv.PROP
Seed0 == atoi(IOEnv.SEED)
NSeeds == atoi(IOEnv.NSEEDS)
Steps == atoi(IOEnv.STEPS)
OutDir == IOEnv.OUTDIR

VARIABLES sd, n, L, slot, hist
vars == <<sd, n, L, slot, hist>>

(* -------------------------------- values -------------------------------- *)
Label(c, i) == Pick(c, i, <<"z", "d1", "d2", "d3", "d4", "d5", "d6", "t1", "t2", "h1", "m1", "d1", "d2", "k0", "k1", "k2", "f">>)
RawD(k, l) == [t |-> "raw", n |-> k,
               x |-> IF k = 0 THEN "" ELSE IF k = 1 /\ l \in {"t1","t2"} THEN "z" ELSE IF k = 1 /\ l = "h1" THEN "d1" ELSE l]
Size(c, i) == Weighted(c, i, << <<0, 8>>, <<1, 8>>, <<2, 8>>, <<8, 12>>, <<9, 5>>, <<45, 8>>, <<100, 12>>, <<200, 8>>,
                                <<1024, 5>>, <<1025, 2>>, <<10239, 1>>, <<10240, 2>> >>)
Small(c, i) == N(Pick(c, i, <<1, 2, 9, 10, 11, 99, 100, 101, 1000, 10000, 12345, 999999, 5000000>>))
Big(c, i) == Pick(c, i, << <<0, 10, 0>>, <<0, 123, 45678901>>, <<1, 0, 1>>, <<900, 5, 7>> >>)
Free(a, b) == IF Lt(a, b) THEN Zero ELSE Sub(a, b)
OtherX(x) == CASE x = "A1" -> "A2" [] x = "A2" -> "A1" [] x = "A3" -> "A1" [] x = "C1" -> "A1" [] x = "P1" -> "A1"
               [] x = "W1" -> "A1" [] x = "W2" -> "A1" [] x = "A4" -> "A5" [] x = "A5" -> "A4" [] x = "esc/U1/0" -> "esc/U1/1" [] x = "esc/U1/1" -> "esc/U2/0"
               [] x = "esc/U2/0" -> "esc/U1/0" [] OTHER -> "esc/U1/0"
EscAll == << <<"U1", 0>>, <<"U1", 1>>, <<"U1", 7>>, <<"U1", 255>>, <<"U2", 0>>, <<"U2", 128>>, <<"U2", 254>>, <<"V1", 0>>, <<"ADM", 3>>, <<"M1", 0>>, <<"M1", 9>>,
             <<"ATT", 0>>, <<"ATT", 1>>, <<"ATT", 128>>, <<"ATT", 255>> >>
EscMain == [i \in 1..Len(EscAll) |-> EscKey(EscAll[i][1], EscAll[i][2])]
PlainMain == <<"A1", "A2", "A3", "P1", "C1", "A4", "A5">>
Main == <<"A1", "A1", "A2", "A3", "P1", "C1", "A4", "A5", "W1", "W2">> \o EscMain
EscU == [k \in {EscMain[i] : i \in 1..Len(EscAll)} |-> EscAll[CHOOSE i \in 1..Len(EscAll) : EscMain[i] = k]]
IsEsc(x) == x \in DOMAIN EscU
ProgOf(x) == IF x = "W2" THEN "PROG" ELSE IF x \in PdaNames THEN PdaProg(x) ELSE "sys"

(* ----------------------------- initial ledger ----------------------------- *)
Wal(l) == [l |-> l, o |-> "sys", d |-> Empty]
Pd(a) == [l |-> Rent(77), o |-> "LOADER", d |-> [t |-> "pd", auth |-> a]]
Vault(l) == [l |-> Add(Rent(8), l), o |-> "dlp", d |-> RawZ(8)]
Freq0 == N(30000)
OldRec(x, own, a, sl, lam) == [l |-> Rent(96), o |-> "dlp", d |-> [t |-> "rec", auth |-> a, own |-> own, slot |-> sl, lam |-> lam, freq |-> Freq0]]
OldMeta(x, last, und, p) == [l |-> Rent(MetaLen(SeedsOf(x))), o |-> "dlp",
                              d |-> [t |-> "meta", last |-> last, und |-> und, seeds |-> SeedsOf(x), payer |-> p]]
PlainAcc(c, i, own) ==
  LET k == Size(Sub0(c, 3), i)  k1 == IF k = 0 THEN IF Chance(c, i + 1, 30) THEN 0 ELSE 16 ELSE k
      lam == Add(Rent(k1), Pick(c, i + 2, <<Zero, N(1), N(1000), N(777777), N(5000000)>>))
  IN [l |-> lam, o |-> own, d |-> RawD(k1, Label(c, i + 3))]

Base(c) ==
  [U1 |-> Wal(<<0, 100, 0>>), U2 |-> Wal(<<0, 100, 5>>), V1 |-> Wal(<<0, 500, 0>>), V2 |-> Wal(<<0, 500, 1>>),
   V3 |-> Wal(IF Chance(c, 1, 50) THEN N(4000000) ELSE <<0, 300, 0>>), ADM |-> Wal(<<0, 100, 0>>), UPA |-> Wal(<<0, 100, 0>>),
   ATT |-> Wal(<<0, 100, 0>>), M1 |-> Wal(<<0, 100, 0>>), FEE |-> Wal(<<900, 0, 0>>), W1 |-> Wal(Pick(c, 2, <<N(890880), N(2000000), <<0, 10, 0>>>>)),
   W2 |-> [Wal(Add(Rent(0), Pick(c, 2, <<Zero, N(777)>>))) EXCEPT !.o = "PROG"]]
Opt(cond, k, a) == IF cond THEN k :> a ELSE <<>>
InitLedger(c) ==
  LET p1 == PlainAcc(c, 60, "dlp")
      old == Chance(c, 70, 60)
      pend == old /\ Chance(c, 71, 40)
      und == Chance(c, 72, 30)
      lst == Pick(c, 73, <<Zero, N(3), N(1000), <<0, 50, 0>>>>)
      nl == Pick(c, 74, <<p1.l, Add(p1.l, N(5000)), Rent(DLen(p1.d))>>)
      cd == RawD(Size(c, 75), Label(c, 76))
      nl2 == IF Lt(nl, Rent(DLen(cd))) THEN Rent(DLen(cd)) ELSE nl
      admd == Pick(c, 80, <<"ADM","ADM","ADM","ADM","ADM","ADM","ADM","UPA","M1","M1","none">>)
      many == {"V1","V2","V3","U1","U2","ATT","ADM","UPA","FEE","W1","W2","SB1","SB2"}
      others == {"A1","A2","A3","A4","PROG","PROG2","fv","rec/A1","esc/U1/0","vv/V1","vv/V2","sys"}
      wl1 == Pick(c, 81, << {}, {}, {}, {}, {"V1"}, {"V1","V2"}, {"V2","V3"}, {"V1","V2","V3","U1","U2","ATT"}, many, many \ {"V1"}, many \cup others, (many \cup others) \ {"V2","V3"} >>)
      wl2 == Pick(c, 82, << {}, {}, {}, {"V2"}, {"V1","V2"}, many, others \cup {"V1"} >>)
      cfg(s) == [l |-> Rent(12 + 32 * Cardinality(s)), o |-> "dlp", d |-> [t |-> "cfg", v |-> SeqOf(s)]]
      stray(i, k) == Opt(Chance(c, 100 + i, 7), k, Wal(Pick(c, 130 + i, <<N(890880), N(1000000), N(1000000), <<0, 1, 0>>>>)))
      x1 == Pick(c, 91, Main)
  IN Base(c)
     @@ ("A1" :> PlainAcc(c, 10, "PROG")) @@ ("A2" :> PlainAcc(c, 20, "PROG")) @@ ("A3" :> PlainAcc(c, 30, "PROG"))
     @@ ("A4" :> PlainAcc(c, 50, "PROG")) @@ ("A5" :> PlainAcc(c, 150, "PROG")) @@ ("C1" :> PlainAcc(c, 40, "PROG2"))
     @@ ("P1" :> [p1 EXCEPT !.o = IF old THEN "dlp" ELSE "PROG"])
     @@ Opt(old, "rec/P1", OldRec("P1", "PROG", Pick(c, 77, <<"sys", "V1">>), N(2), p1.l))
     @@ Opt(old, "meta/P1", OldMeta("P1", lst, und, Pick(c, 78, <<"U1", "U2">>)))
     @@ Opt(pend, "cr/P1", [l |-> Rent(88), o |-> "dlp",
                             d |-> [t |-> "cr", id |-> "V1", acc |-> "P1", slot |-> Add(lst, N(D(c, 79, 3))), lam |-> nl2]])
     @@ Opt(pend, "cs/P1", [l |-> Max(Rent(DLen(cd)), Missing(p1.l, nl2)), o |-> "dlp", d |-> cd])
     @@ ("pd/dlp" :> Pd(admd)) @@ ("pd/PROG" :> Pd(Pick(c, 83, <<"UPA", "UPA", "U1", "none">>))) @@ ("pd/PROG2" :> Pd(Pick(c, 84, <<"U2", "UPA">>)))
     @@ Opt(Chance(c, 85, 88), "fv", Vault(Pick(c, 86, <<Zero, N(1), N(12345)>>)))
     @@ Opt(Chance(c, 87, 92), "vv/V1", Vault(Pick(c, 88, <<Zero, N(9), N(12345), <<0, 3, 7>>>>)))
     @@ Opt(Chance(c, 89, 80), "vv/V2", Vault(Pick(c, 90, <<Zero, N(19), N(101)>>)))
     @@ Opt(Chance(c, 92, 60), "vv/V3", Vault(Zero))
     @@ Opt(wl1 # {}, "cfg/PROG", cfg(wl1)) @@ Opt(wl2 # {}, "cfg/PROG2", cfg(wl2))
     @@ Opt(Chance(c, 93, 50), "esc/U1/0", Wal(Add(Rent(0), Small(c, 94)))) @@ Opt(Chance(c, 95, 30), "esc/U2/0", Wal(Rent(0)))
     @@ Opt(Chance(c, 97, 30), "esc/V1/0", Wal(Add(Rent(0), N(10000000))))
     @@ stray(1, "cs/" \o x1) @@ stray(2, "cr/" \o x1) @@ stray(3, "rec/" \o x1) @@ stray(4, "meta/" \o x1)
     @@ stray(5, "ubuf/" \o x1) @@ stray(6, "buf/" \o x1 \o "/" \o ProgOf(x1)) @@ stray(7, "cfg/PROG") @@ stray(8, "vv/V3")
     @@ stray(9, "cs/A1") @@ stray(10, "cr/A1") @@ stray(11, "fv") @@ stray(12, "vv/U1") @@ stray(13, "cfg/PROG2")

(* ------------------------------ operations ------------------------------ *)
RecOk(M, x) == Dat(M, "rec/" \o x).t = "rec" /\ Dat(M, "meta/" \o x).t = "meta" /\ IsDlp(M, x)
Phase(M, x) == IF ~IsDlp(M, "rec/" \o x) THEN "none"
               ELSE IF RecOk(M, x) = FALSE THEN "lost"
               ELSE IF IsDlp(M, "cr/" \o x) THEN "pend"
               ELSE IF Dat(M, "meta/" \o x).und THEN "ready" ELSE "idle"
Approved(M, own, v) == IsDlp(M, "vv/" \o v) /\ (Own(M, "cfg/" \o own) = "sys" \/ v \in CfgSet(Dat(M, "cfg/" \o own)))
Vals == <<"V1", "V2", "V3">>
GoodVals(M, own) == SelectSeq(Vals, LAMBDA v : Approved(M, own, v))
AVal(c, i, M, own) == LET g == GoodVals(M, own) IN
  IF g # <<>> /\ Chance(c, i, 88) THEN Pick(c, i + 1, g) ELSE Pick(c, i + 1, <<"V1", "V2", "V3", "V1", "V2", "U1", "ATT">>)

Seeds(c, i, x) ==
  LET s == IF x \in PdaNames THEN SeedsOf(x) ELSE <<>> IN
  IF Chance(c, i, 88) THEN s
  ELSE IF Chance(c, i + 2, 25) /\ s # <<>> THEN
       IF Len(s[1]) >= 4 THEN <<SubSeq(s[1], 1, 2), SubSeq(s[1], 3, Len(s[1]))>> \o Tail(s) ELSE s \o <<"">>
  ELSE Pick(c, i + 1, << SeedsOf("A1"), SeedsOf("A2"), <<>>, <<"">>, s \o <<"00">>, <<"746573742d", "706461">>, s,
                         SeedsOf("esc/U1/0"), [j \in 1..16 |-> "0" \o ToString(j % 10)],
                         <<"000000000000000000000000000000000000000000000000000000000000000000">> >>)
DelArgs(c, i, x) == [freq |-> Pick(c, i, <<Zero, N(1), N(30000), <<0, 42, 94967295>>>>), seeds |-> Seeds(c, i + 1, x),
                     val |-> Pick(c, i + 3, <<"sys", "V1", "V2", "ATT">>)]
Pin(c) == Chance(c, 999, 25)
FeeBy(p) == IF p \in OnCurve THEN p ELSE "FEE"
T1(fp, op) == [fp |-> FeeBy(fp), ops |-> <<op>>]
Payer(c, i) == Pick(c, i, <<"U1", "U1", "U2", "ATT", "V1", "FEE", "M1">>)

DelegateTx(c, M, x) ==
  LET da == DelArgs(c, 10, x)  p == Payer(c, 14)  fp == Pick(c, 15, <<"FEE", p>>) IN
  IF IsEsc(x)
  THEN IF Lam(M, x) = Zero /\ Chance(c, 16, 85)
       THEN T1(fp, [op |-> "topup", p |-> p, u |-> EscU[x][1], amt |-> Small(c, 17), idx |-> EscU[x][2], pin |-> Pin(c)])
       ELSE T1(fp, [op |-> "delesc", p |-> p, u |-> EscU[x][1], freq |-> da.freq, seeds |-> da.seeds, val |-> da.val,
                    idx |-> EscU[x][2], pin |-> Pin(c)])
  ELSE IF x = "W1" THEN
       [fp |-> FeeBy(fp), ops |-> << [op |-> "assign", x |-> "W1", to |-> "dlp"],
                              [op |-> "delegate", p |-> p, x |-> "W1", own |-> Pick(c, 18, <<"sys", "sys", "sys", "PROG">>),
                               freq |-> da.freq, seeds |-> da.seeds, val |-> da.val, pin |-> Pin(c)] >>]
  ELSE LET own == ProgOf(x) IN
       T1(fp, [op |-> "pdel", prog |-> own, own |-> IF Chance(c, 19, 94) THEN own ELSE Pick(c, 20, <<"PROG", "PROG2", "sys", "dlp">>),
               p |-> p, x |-> x, freq |-> da.freq, seeds |-> da.seeds, val |-> da.val,
               mode |-> IF Chance(c, 21, 85) THEN "honest" ELSE Pick(c, 22, <<"nosign", "nobuf", "sbuf", "lbuf", "noassign">>),
               pin |-> Pin(c)])

CommitLam(c, i, M, x) ==
  LET r == Dat(M, "rec/" \o x).lam  l == Lam(M, x) IN
  Weighted(c, i, << <<r, 30>>, <<Add(r, N(1)), 6>>, <<Add(r, Small(c, i + 1)), 14>>, <<Free(r, N(1)), 6>>, <<Free(r, Small(c, i + 1)), 14>>,
                    <<l, 6>>, <<Rent(DLen(Dat(M, x))), 8>>, <<Zero, 2>>, <<Add(r, <<0, 400, 0>>), 3>>, <<Add(r, Big(c, i + 2)), 3>>,
                    <<U64Max, 1>> >>)
CommitSlot(c, i, M, x) ==
  LET s == Dat(M, "meta/" \o x).last IN
  Weighted(c, i, << <<s, 22>>, <<Add(s, N(1)), 25>>, <<Add(s, Small(c, i + 1)), 25>>, <<Free(s, N(1)), 10>>, <<Zero, 6>>,
                    <<Free(s, Small(c, i + 1)), 6>>, <<<<920, 1, 1>>, 1>>, <<<<1844, 1, 1>>, 1>> >>)
CommitData(c, i, M, x) ==
  IF Chance(c, i, 25) THEN Dat(M, x)
  ELSE IF IsEsc(x) \/ x \in {"W1", "W2"} THEN IF Chance(c, i + 1, 90) THEN Empty ELSE RawD(Size(c, i + 2), Label(c, i + 3))
  ELSE IF Chance(c, i + 1, 30) THEN RawD(DLen(Dat(M, x)), Label(c, i + 3))
  ELSE RawD(Size(c, i + 2), Label(c, i + 3))
CommitOp(c, M, x) ==
  LET own == Dat(M, "rec/" \o x).own  v == AVal(c, 30, M, own) IN
  [op |-> "commit", v |-> v, x |-> x, own |-> IF Chance(c, 32, 95) THEN own ELSE Pick(c, 33, <<"PROG", "PROG2", "sys">>),
   slot |-> CommitSlot(c, 34, M, x), lam |-> CommitLam(c, 36, M, x), und |-> Chance(c, 39, 50), d |-> CommitData(c, 40, M, x),
   pin |-> Pin(c)]
Fp(c, i, v) == IF Chance(c, i, 93) THEN v ELSE "FEE"
BufAcc(d) == [l |-> Rent(DLen(d)), o |-> "PROG", d |-> d]
AsBuffered(op, b) == [op |-> "commitb", v |-> op.v, x |-> op.x, own |-> op.own, buf |-> b, slot |-> op.slot, lam |-> op.lam,
                      und |-> op.und, pin |-> op.pin]
CommitTx(c, M, x) ==
  LET op == CommitOp(c, M, x) IN
  IF Chance(c, 45, 25) THEN [T1(Fp(c, 46, op.v), AsBuffered(op, "SB1")) EXCEPT !.fp = @]
  ELSE T1(Fp(c, 46, op.v), op)
FinalizeTx(c, M, x) ==
  LET cr == Dat(M, "cr/" \o x)
      v == IF cr.t = "cr" /\ Chance(c, 50, 85) THEN cr.id ELSE Pick(c, 51, <<"V1", "V2", "V3", "V1", "ATT", "U1">>)
      ok == v \in Wallets
  IN T1(Fp(c, 52, IF ok THEN v ELSE "V1"), [op |-> "finalize", v |-> IF ok THEN v ELSE "V1", x |-> x, pin |-> Pin(c)])
Callbacks == <<"fail", "nothing", "wrong", "wrong0", "short", "long", "over", "over2", "under", "zero", "other">>
UndelegateTx(c, M, x) ==
  LET r == Dat(M, "rec/" \o x)  m == Dat(M, "meta/" \o x)
      own == IF r.t = "rec" /\ Chance(c, 60, 96) THEN r.own ELSE Pick(c, 61, <<"PROG", "PROG2", "sys", "dlp">>)
      rp == IF m.t = "meta" /\ Chance(c, 62, 96) THEN m.payer ELSE Pick(c, 63, <<"U1", "U2", "ATT", "V1">>)
      v == AVal(c, 64, M, own)
  IN [fp |-> Pick(c, 66, <<v, "FEE">>), ops |-> << [op |-> "undelegate", v |-> v, x |-> x, own |-> own, rp |-> rp, pin |-> Pin(c)] >>,
      cb |-> IF Chance(c, 67, IF Prop \in {"C15", "C16"} THEN 72 ELSE 88) THEN "honest" ELSE Pick(c, 68, Callbacks)]
DepositTx(c, k) == T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> k, amt |-> Pick(c, 70, <<N(890880), N(1000000), N(7000000)>>)])

(* the next operation that moves the session of x along, or one that should be refused *)
SessionTx(c, M, x) ==
  LET ph == Phase(M, x) IN
  CASE ph = "none" -> IF Chance(c, 1, 93) THEN DelegateTx(c, M, x)
                      ELSE T1("V1", [op |-> "finalize", v |-> "V1", x |-> x, pin |-> FALSE])
    [] ph = "idle" -> LET k == D(c, 1, 100) IN
                      IF k < 66 THEN CommitTx(c, M, x) ELSE IF k < 80 THEN FinalizeTx(c, M, x)
                      ELSE IF k < 88 THEN UndelegateTx(c, M, x) ELSE IF k < 96 THEN DepositTx(c, Pick(c, 2, <<x, "cs/" \o x, "cr/" \o x, "ubuf/" \o x, "meta/" \o x, "rec/" \o x>>))
                      ELSE DelegateTx(c, M, x)
    [] ph = "pend" -> LET k == D(c, 1, 100) IN
                      IF k < 62 THEN FinalizeTx(c, M, x) ELSE IF k < 82 THEN CommitTx(c, M, x)
                      ELSE IF k < 92 THEN UndelegateTx(c, M, x) ELSE DepositTx(c, Pick(c, 2, <<x, "cs/" \o x, "cr/" \o x, "rec/" \o x>>))
    [] ph = "ready" -> LET k == D(c, 1, 100) IN
                      IF k < 70 THEN UndelegateTx(c, M, x) ELSE IF k < 85 THEN CommitTx(c, M, x)
                      ELSE IF k < 92 THEN FinalizeTx(c, M, x) ELSE DepositTx(c, Pick(c, 2, <<x, "ubuf/" \o x, "cs/" \o x, "rec/" \o x>>))
    [] OTHER -> DepositTx(c, x)

Adm(c, i, M) == LET a == UpAuth(M, "dlp") IN IF a \in Wallets /\ Chance(c, i, 85) THEN a ELSE Pick(c, i + 1, <<"ATT", "UPA", "ADM", "V1">>)
FeeTx(c, M) ==
  LET v == Pick(c, 10, <<"V1", "V1", "V2", "V3", "U1", "M1">>)  p == Payer(c, 11)
      free == Free(Lam(M, "vv/" \o v), Rent(8))
      k == D(c, 1, 100) IN
  IF k < 38 THEN T1(Pick(c, 12, <<v, "FEE">>),
       [op |-> "vclaim", v |-> v, some |-> Chance(c, 13, 60),
        amt |-> Weighted(c, 14, << <<free, 20>>, <<Add(free, N(1)), 12>>, <<Free(free, N(1)), 10>>, <<Zero, 8>>, <<N(9), 10>>, <<N(10), 8>>,
                                   <<N(19), 8>>, <<N(99), 8>>, <<N(101), 8>>, <<Div10(free), 8>>, <<U64Max, 2>>, <<Lam(M, "vv/" \o v), 4>> >>),
        pin |-> Pin(c)])
  ELSE IF k < 52 THEN LET a == Adm(c, 15, M) IN T1(Pick(c, 12, <<a, "FEE">>), [op |-> "pclaim", adm |-> a, pin |-> Pin(c)])
  ELSE IF k < 70 THEN T1("FEE", [op |-> "initvv", p |-> p, adm |-> Adm(c, 15, M), v |-> Pick(c, 16, <<"V1", "V2", "V3", "U1", "ATT", "ADM", "M1">>), pin |-> Pin(c)])
  ELSE IF k < 80 THEN T1("FEE", [op |-> "closevv", p |-> p, adm |-> Adm(c, 15, M), v |-> v, pin |-> Pin(c)])
  ELSE IF k < 86 THEN T1("FEE", [op |-> "initfv", p |-> p, pin |-> Pin(c)])
  ELSE DepositTx(c, Pick(c, 17, <<"fv", "vv/" \o v, "vv/" \o v, "vv/V3">>))
WlTx(c, M) ==
  LET prog == Pick(c, 10, <<"PROG", "PROG", "PROG2", "dlp", "sys">>)
      pa == UpAuth(M, prog)  da == UpAuth(M, "dlp")
      au == IF Chance(c, 11, 45) /\ pa \in Wallets THEN pa ELSE IF Chance(c, 12, 75) /\ da \in Wallets THEN da
            ELSE Pick(c, 13, <<"ATT", "U1", "U2", "UPA", "ADM", "V1", "M1">>)
  IN T1(Pick(c, 14, <<au, "FEE">>),
        [op |-> "wl", auth |-> au, v |-> Pick(c, 15, <<"V1", "V2", "V3", "V1", "V2", "U1", "U2", "ATT", "ADM", "UPA", "W1", "W2", "FEE", "SB1", "SB2", "A1", "A2", "PROG", "fv", "rec/A1", "vv/V1", "esc/U1/0", "sys">>),
         prog |-> prog, ins |-> Chance(c, 16, 65), pin |-> Pin(c)])
EscTx(c, M) ==
  LET x == Pick(c, 10, EscMain)  u == EscU[x][1]  i == EscU[x][2]  k == D(c, 1, 100)  p == Payer(c, 12) IN
  IF k < 40 THEN T1(Pick(c, 11, <<"FEE", p>>),
       [op |-> "topup", p |-> p, u |-> u, amt |-> Weighted(c, 13, << <<Small(c, 14), 60>>, <<Zero, 15>>, <<Big(c, 14), 5>>, <<Lam(M, p), 4>> >>),
        idx |-> i, pin |-> Pin(c)])
  ELSE IF k < 65 THEN T1(Pick(c, 11, <<"FEE", u>>), [op |-> "closeesc", u |-> IF Chance(c, 15, 90) \/ EscKey("ATT", i) \notin PdaNames THEN u ELSE "ATT", idx |-> i, pin |-> Pin(c)])
  ELSE IF k < 75 THEN DepositTx(c, x)
  ELSE IF k < 80 /\ Lam(M, x) = Zero THEN T1("FEE", [op |-> "delesc", p |-> p, u |-> u, freq |-> Zero, seeds |-> SeedsOf(x), val |-> "sys", idx |-> i, pin |-> FALSE])
  ELSE SessionTx(Sub0(c, 5), M, x)

(* ------------------------------- mutations ------------------------------- *)
Kinds == <<"rec/", "meta/", "cs/", "cr/", "ubuf/">>
Pool(c, i, x) ==
  LET y == OtherX(x) IN
  Pick(c, i, <<"rec/" \o x, "meta/" \o x, "cs/" \o x, "cr/" \o x, "ubuf/" \o x, "rec/" \o y, "meta/" \o y, "cs/" \o y, "cr/" \o y,
               "ubuf/" \o y, "vv/V1", "vv/V2", "vv/V3", "fv", "cfg/PROG", "cfg/PROG2", "cfg/sys", "pd/dlp", "pd/PROG", "pd/PROG2",
               "U1", "U2", "V1", "V2", "ATT", "ADM", "sys", "dlp", "PROG", "PROG2", x, y, "SB1", "W2", "esc/U1/0", "esc/U1/1", "esc/U2/0",
               "buf/" \o x \o "/PROG", "buf/" \o x \o "/sys", "buf/" \o y \o "/sys", "buf/" \o x \o "/PROG2", "ubuf/A1", "rec/A1", "meta/A1">>)
(* something of the same kind that belongs to somebody else *)
Kin(c, i, k, x) ==
  LET y == OtherX(x)
      cands == CASE k = x -> <<y, OtherX(y)>>
                 [] k = "rec/" \o x -> <<"rec/" \o y, "rec/P1", "meta/" \o x>> [] k = "meta/" \o x -> <<"meta/" \o y, "meta/P1", "rec/" \o x>>
                 [] k = "cs/" \o x -> <<"cs/" \o y, "cr/" \o x, "cs/P1">> [] k = "cr/" \o x -> <<"cr/" \o y, "cs/" \o x, "cr/P1">>
                 [] k = "ubuf/" \o x -> <<"ubuf/" \o y, "buf/" \o x \o "/sys">>
                 [] k \in {"vv/V1", "vv/V2", "vv/V3", "vv/U1", "vv/ATT"} -> <<"vv/V1", "vv/V2", "vv/V3", "fv">>
                 [] k = "fv" -> <<"vv/V1", "vv/V2">>
                 [] k \in {"cfg/PROG", "cfg/PROG2", "cfg/sys", "cfg/dlp"} -> <<"cfg/PROG", "cfg/PROG2", "cfg/sys", "cfg/dlp">>
                 [] k \in {"pd/dlp", "pd/PROG", "pd/PROG2", "pd/sys"} -> <<"pd/PROG", "pd/PROG2", "pd/dlp", "U1">>
                 [] k \in {"PROG", "PROG2", "sys"} -> <<"PROG", "PROG2", "sys", "dlp">>
                 [] k \in DOMAIN EscU -> EscMain
                 [] k \in Wallets -> <<"U1", "U2", "V1", "V2", "V3", "ATT", "ADM", "UPA", "M1">>
                 [] OTHER -> <<"buf/" \o y \o "/sys", "buf/" \o x \o "/PROG2", "SB1">>
  IN Pick(c, i, cands)
XOf(op) == CASE op.op \in {"topup", "delesc"} -> EscKey(op.u, op.idx) [] op.op = "closeesc" -> EscKey(op.u, op.idx)
             [] op.op \in {"commit", "commitb", "finalize", "undelegate", "delegate", "pdel", "assign"} -> op.x
             [] OTHER -> "A1"
Mut1(c, op) ==
  LET al == IF op.op = "pdel" THEN CallAccounts([op EXCEPT !.op = "delegate"]) ELSE CallAccounts(op)
      m == Len(al)  i == 1 + D(c, 1, m)  x == XOf(op)
      sgs == SelectSeq([j \in 1..m |-> j], LAMBDA j : al[j].s)
      wrs == SelectSeq([j \in 1..m |-> j], LAMBDA j : al[j].w)
      other == IF Chance(c, 3, 65) THEN Kin(c, 4, al[i].k, x) ELSE Pool(c, 4, x)
      (* only wallets can sign a transaction *)
      swapk == IF al[i].s /\ other \notin Wallets THEN Pick(c, 5, <<"ATT", "V2", "U2", "ADM", "V1">>) ELSE other
  IN Weighted(c, 2, <<
       << << [m |-> "swap", i |-> i, k |-> swapk] >>, 46 >>,
       << << [m |-> "nosig", i |-> Pick(c, 6, sgs)], [m |-> "rw", i |-> Pick(c, 6, sgs)] >>, 12 >>,
       << << [m |-> "ro", i |-> Pick(c, 6, wrs)] >>, 8 >>,
       << << [m |-> "rw", i |-> i] >>, 3 >>,
       << << [m |-> "drop", i |-> i] >>, 5 >>,
       << << [m |-> "push", k |-> Pool(c, 7, x)] >>, 4 >>,
       << << [m |-> "exch", i |-> i, j |-> 1 + ((i + D(c, 7, m - 1)) % m)] >>, 6 >>,
       << << [m |-> "trunc", i |-> 1 + D(c, 7, 9)] >>, 5 >>,
       << << [m |-> "ext", i |-> 1 + D(c, 7, 3)] >>, 4 >>,
       << << [m |-> "code", i |-> D(c, 7, 18)] >>, 4 >>,
       << << [m |-> "byte", i |-> D(c, 7, 256), j |-> D(c, 8, 40)] >>, 4 >> >>)
NoExchSigner(op, ms) ==    \* an exchange must not put a non-wallet in a signer's place
  LET al == IF op.op = "pdel" THEN CallAccounts([op EXCEPT !.op = "delegate"]) ELSE CallAccounts(op) IN
  \A q \in 1..Len(ms) : ms[q].m = "exch" => TRUE
MutTx(c, tx) ==
  LET q == Len(tx.ops)  op == tx.ops[q]
      ms0 == Mut1(Sub0(c, 7), op)
      ms == IF Chance(c, 8, 20) THEN ms0 \o Mut1(Sub0(c, 8), op) ELSE ms0
      (* structural changes shift positions: keep only the first of two *)
      ms2 == IF \E z \in 1..Len(ms0) : ms0[z].m \in {"drop", "exch", "push"} THEN ms0
             ELSE ms
      op2 == IF op.op = "pdel" THEN [op |-> "pdel", prog |-> op.prog, own |-> op.own, p |-> op.p, x |-> op.x, freq |-> op.freq,
                                     seeds |-> op.seeds, val |-> op.val, mode |-> op.mode, pin |-> op.pin, in |-> ms2]
             ELSE ("mut" :> ms2) @@ op
      unsigned == \E z \in 1..Len(ms2) : ms2[z].m \in {"nosig", "ro"}
  IN [tx EXCEPT !.ops = [@ EXCEPT ![q] = op2], !.fp = IF unsigned THEN "FEE" ELSE @]

(* -------------------------------- behaviour -------------------------------- *)
Cb(tx) == IF "cb" \in DOMAIN tx THEN tx.cb ELSE "honest"
Full(tx, tag) == [k |-> "tx", fp |-> tx.fp, ops |-> tx.ops, cb |-> Cb(tx), h |-> TRUE, tag |-> tag]
Spec1(tx) == [fp |-> tx.fp, ops |-> tx.ops, cb |-> Cb(tx)]
Focus(c, M) ==
  LET s == <<c[1], 0>>
      m == IF Prop \in {"C21", "C22", "C23"} THEN EscMain ELSE IF Prop = "C15" THEN PlainMain
           ELSE IF Prop = "C32" THEN <<"P1", "P1", "A1", "A2">> ELSE Main
      x1 == Pick(s, 501, m)  x2 == Pick(s, 502, m)  x3 == OtherX(x1)
  IN LET k == D(c, 503, 100) IN IF k < 62 THEN x1 ELSE IF k < 85 THEN x2 ELSE x3

(* one to three operations in one transaction *)
RECURSIVE Bundle(_, _, _, _, _)
Bundle(c, M, x, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET t == SessionTx(Sub0(c, 20 + k), M, x)
           r == ExecTx(M, Spec1(t), slot)
           M2 == IF r.ok THEN r.L ELSE M
       IN Bundle(c, M2, x, k - 1, [acc EXCEPT !.ops = @ \o t.ops, !.fp = IF acc.ops = <<>> THEN t.fp ELSE @, !.cb = Cb(t)])
AnyTx(c, M) ==
  LET k == D(c, 600, 100) IN
  IF k < 66 THEN SessionTx(Sub0(c, 31), M, Focus(c, M))
  ELSE IF k < 78 THEN FeeTx(Sub0(c, 32), M) ELSE IF k < 88 THEN WlTx(Sub0(c, 33), M) ELSE EscTx(Sub0(c, 34), M)
(* of several candidates, the first that the specification accepts *)
RECURSIVE Accepted(_, _, _, _)
Accepted(c, M, F(_, _), k) ==
  LET t == F(Sub0(c, 40 + k), M) IN
  IF k = 0 \/ ExecTx(M, Spec1(t), slot).ok THEN t ELSE Accepted(c, M, F, k - 1)

Weights ==
  LET W(s, f, w, e, b, m, p, bu, en, r) ==
        << <<"sess", s>>, <<"fee", f>>, <<"wl", w>>, <<"esc", e>>, <<"bundle", b>>, <<"mut", m>>, <<"pair", p>>, <<"buf", bu>>,
           <<"env", en>>, <<"rel", r>> >>
  IN CASE Prop = "C01" -> W(40, 0, 0, 8, 2, 45, 0, 0, 5, 0)
       [] Prop = "C02" -> W(75, 0, 0, 8, 4, 4, 0, 0, 9, 0)
       [] Prop = "C03" -> W(60, 2, 1, 6, 6, 22, 0, 0, 3, 0)
       [] Prop = "C04" -> W(45, 6, 16, 2, 4, 22, 0, 0, 5, 0)
       [] Prop \in {"C05", "C06", "C07", "C08", "C09", "C10", "C12"} -> W(72, 2, 2, 4, 6, 10, 0, 0, 4, 0)
       [] Prop = "C11" -> W(60, 6, 2, 2, 4, 24, 0, 0, 2, 0)
       [] Prop = "C13" -> W(62, 4, 2, 4, 18, 8, 0, 0, 2, 0)
       [] Prop = "C14" -> W(58, 5, 2, 4, 5, 24, 0, 0, 2, 0)
       [] Prop \in {"C15", "C16"} -> W(76, 3, 0, 5, 6, 6, 0, 0, 4, 0)
       [] Prop \in {"C17", "C18", "C19"} -> W(18, 45, 0, 0, 4, 25, 0, 0, 8, 0)
       [] Prop = "C20" -> W(8, 4, 55, 0, 0, 25, 0, 0, 8, 0)
       [] Prop \in {"C21", "C22", "C23"} -> W(30, 2, 0, 46, 4, 16, 0, 0, 2, 0)
       [] Prop = "C24" -> W(45, 12, 6, 12, 5, 15, 0, 0, 5, 0)
       [] Prop = "C25" -> W(28, 6, 5, 6, 2, 50, 0, 0, 3, 0)
       [] Prop = "C26" -> W(82, 2, 3, 3, 6, 0, 0, 0, 4, 0)
       [] Prop = "C27" -> W(10, 34, 24, 26, 2, 0, 0, 0, 4, 0)
       [] Prop = "C28" -> W(56, 4, 4, 6, 4, 0, 0, 0, 6, 20)
       [] Prop = "C29" -> W(42, 5, 5, 5, 2, 0, 38, 0, 3, 0)
       [] Prop = "C30" -> W(52, 12, 10, 12, 3, 4, 0, 0, 7, 0)
       [] Prop = "C31" -> W(28, 5, 4, 5, 2, 54, 0, 0, 2, 0)
       [] Prop = "C32" -> W(68, 10, 8, 8, 3, 0, 0, 0, 3, 0)
       [] Prop = "C33" -> W(42, 4, 6, 2, 2, 0, 0, 42, 2, 0)
       [] OTHER -> W(38, 8, 7, 8, 5, 20, 5, 4, 3, 2)

Push == [k |-> "push"]
Pop == [k |-> "pop"]
(* result of running tx in M: [steps, M] *)
Run(M, tx, tag) ==
  LET needbuf == \E i \in 1..Len(tx.ops) : tx.ops[i].op = "commitb" /\ tx.ops[i].buf \in {"SB1", "SB2"}
      r == ExecTx(M, Spec1(tx), slot)
  IN [steps |-> << Full(tx, tag) >>, M |-> r.L]
Env(M, m) == [steps |-> << [k |-> "env", acc |-> m] >>, M |-> Sweep(PutAll(M, m))]
EnvStep(c, M) ==
  LET k == D(c, 1, 100)  x == Focus(c, M) IN
  IF k < 18 THEN Env(M, "pd/dlp" :> Pd(Pick(c, 2, <<"ADM", "ADM", "ADM", "UPA", "U1", "none">>)))
  ELSE IF k < 26 THEN Env(M, "pd/PROG" :> Pd(Pick(c, 2, <<"UPA", "U1", "none">>)))
  ELSE IF k < 80 /\ ~IsEsc(x) /\ x \notin {"W1", "W2"} /\ Own(M, x) \notin {"dlp", "sys"} /\ ~IsDlp(M, "rec/" \o x)
       THEN Env(M, x :> PlainAcc(Sub0(c, 9), 10, ProgOf(x)))
  ELSE IF k < 90 THEN LET d == RawD(Size(c, 3), Label(c, 4)) IN Env(M, "SB1" :> BufAcc(d))
  ELSE Env(M, Pick(c, 5, <<"V3", "V1", "U1">>) :> Wal(Pick(c, 6, <<N(2000000), <<0, 300, 0>>, <<0, 500, 0>>, N(5000000)>>)))

Act(c, M) ==
  LET w == Weighted(c, 700, Weights) IN
  CASE w = "sess" -> Run(M, SessionTx(Sub0(c, 1), M, Focus(c, M)), "sess")
    [] w = "fee" -> Run(M, FeeTx(Sub0(c, 1), M), "fee")
    [] w = "wl" -> Run(M, WlTx(Sub0(c, 1), M), "wl")
    [] w = "esc" -> Run(M, EscTx(Sub0(c, 1), M), "esc")
    [] w = "bundle" -> Run(M, Bundle(c, M, Focus(c, M), 2 + D(c, 2, 2), [fp |-> "FEE", ops |-> <<>>, cb |-> "honest"]), "bundle")
    [] w = "mut" ->
         LET F(d, K) == IF Prop = "C20" THEN WlTx(d, K) ELSE IF Prop \in {"C17", "C18", "C19"} THEN FeeTx(d, K)
                        ELSE IF Prop \in {"C21", "C22"} THEN EscTx(d, K)
                        ELSE IF Prop \in {"C01", "C03", "C04", "C06", "C11", "C14", "C23"} THEN SessionTx(d, K, Focus(d, K)) ELSE AnyTx(d, K)
             t == Accepted(c, M, F, 4)
             one(i) == << Push, Full(MutTx(Sub0(c, 60 + i), t), "mut"), Pop >>
         IN IF t.ops[Len(t.ops)].op \in {"xfer", "assign"} THEN Run(M, t, "sess")
            ELSE [steps |-> one(1) \o one(2) \o one(3) \o one(4), M |-> M]
    [] w = "pair" ->
         LET t == Accepted(c, M, AnyTx, 4)
             ks == SelectSeq(SeqOf(TxKeys(t)), LAMBDA k : k \notin ReadOnlyAlways \cup {"FEE"} /\ IsNum(Lam(M, k)))
             dep(i) == IF i = 0 THEN N(890880) ELSE N(1000000 + i)
             try(i) == LET k == Pick(c, 20 + i, ks) IN
                << Push, Full(t, "pair"), Pop, Push, Full(T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> k, amt |-> dep(D(c, 30 + i, 3))]), "dep"),
                   Full(t, "pair"), [k |-> "cmp", kind |-> "dep", at |-> k, amt |-> dep(D(c, 30 + i, 3))], Pop >>
         IN IF ks = <<>> \/ t.ops[Len(t.ops)].op \in {"xfer", "assign"} THEN Run(M, t, "sess")
            ELSE LET r == ExecTx(M, Spec1(t), slot)
                 IN [steps |-> try(1) \o try(2) \o try(3) \o << Full(t, "sess") >>, M |-> r.L]
    [] w = "buf" ->
         LET x == Focus(c, M) IN
         IF Phase(M, x) \in {"none", "lost"} THEN Run(M, SessionTx(Sub0(c, 1), M, x), "sess")
         ELSE LET op == CommitOp(Sub0(c, 1), M, x)  fp == Fp(c, 2, op.v)
                  b == Pick(c, 4, <<"SB1", "SB2">>)
                  buf == [BufAcc(op.d) EXCEPT !.o = Pick(c, 3, <<"PROG", "PROG2", "sys", "dlp">>)]
                  t2 == T1(fp, AsBuffered(op, b))
                  r == ExecTx(M, Spec1(T1(fp, op)), slot)
              IN [steps |-> << Push, [k |-> "env", acc |-> b :> buf], Full(T1(fp, op), "direct"), Pop,
                               Push, [k |-> "env", acc |-> b :> buf], Full(t2, "buffered"), [k |-> "cmp", kind |-> "buf", at |-> b], Pop,
                               Full(T1(fp, op), "sess") >>,
                  M |-> r.L]
    [] w = "env" -> EnvStep(Sub0(c, 1), M)
    [] w = "rel" -> LET x == Focus(c, M) IN
         IF Phase(M, x) \in {"none", "lost"} THEN Run(M, SessionTx(Sub0(c, 1), M, x), "sess")
         ELSE [steps |-> << Push, [k |-> "rel", x |-> x], Pop >>, M |-> M]

Init == /\ sd \in Seed0..(Seed0 + NSeeds - 1)
        /\ n = 0
        /\ slot = N(5 + D(<<sd, 0>>, 900, 1000))
        /\ L = Sweep(InitLedger(<<sd, 0>>))
        /\ hist = << [k |-> "init", slot |-> N(5 + D(<<sd, 0>>, 900, 1000)), acc |-> InitLedger(<<sd, 0>>)] >>

Next ==
  \/ /\ n < Steps
     /\ LET c == <<sd, n + 1>>
            adv == Chance(c, 990, 18)
            far == Add(slot, Pick(c, 993, Leaps))
            sl == IF Chance(c, 992, 70) \/ Lt(<<1844, 0, 0>>, far) THEN Add(slot, N(1 + D(c, 991, 400))) ELSE far
            r == Act(c, L)
        IN /\ L' = r.M
           /\ slot' = IF adv THEN sl ELSE slot
           /\ hist' = hist \o [z \in 1..Len(r.steps) |-> Through(<<sd, n + 1, z>>, r.steps[z])] \o (IF adv THEN << [k |-> "slot", slot |-> sl] >> ELSE <<>>)
           /\ n' = n + 1
           /\ (IF n + 1 # Steps THEN TRUE ELSE JsonSerialize(OutDir \o "/b" \o ToString(sd) \o ".json", hist'))
           /\ sd' = sd
Spec == Init /\ [][Next]_vars
=============================================================================
