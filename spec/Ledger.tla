------------------------------ MODULE Ledger ------------------------------
(* Accounts of the ledger and the platform's own rules: the system program *)
(* (transfer, allocate, assign), rent, and what happens to an account that *)
(* ends a transaction without lamports.                                    *)
(*                                                                         *)
(* A ledger L maps account names to [l |-> lamports, o |-> owner, d |->     *)
(* data]; an account that is not in DOMAIN L does not exist.  Addresses     *)
(* derived from others are named after their derivation: "rec/A1" is the    *)
(* address of the delegation record of A1, "vv/V1" of the fees vault of     *)
(* validator V1, "esc/U1/0" of escrow 0 of user U1.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Names

Empty == [t |-> "raw", n |-> 0, x |-> ""]
RawZ(n) == IF n = 0 THEN Empty ELSE [t |-> "raw", n |-> n, x |-> "z"]
NoAcc == [l |-> Zero, o |-> "sys", d |-> Empty]

Acc(L, k) == IF k \in DOMAIN L THEN L[k] ELSE NoAcc
Put(L, k, a) == IF k \in DOMAIN L THEN [L EXCEPT ![k] = a] ELSE (k :> a) @@ L
RECURSIVE PutAllR(_, _, _)
PutAllR(L, m, ks) == IF ks = {} THEN L
                     ELSE LET k == CHOOSE y \in ks : TRUE IN PutAllR(Put(L, k, m[k]), m, ks \ {k})
(* observed accounts m override those of L *)
PutAll(L, m) == IF DOMAIN m \subseteq DOMAIN L
                THEN [k \in DOMAIN L |-> IF k \in DOMAIN m THEN m[k] ELSE L[k]]
                ELSE m @@ L
Lam(L, k) == Acc(L, k).l
Own(L, k) == Acc(L, k).o
Dat(L, k) == Acc(L, k).d
SetLam(L, k, v) == Put(L, k, [Acc(L, k) EXCEPT !.l = v])
SetDat(L, k, v) == Put(L, k, [Acc(L, k) EXCEPT !.d = v])
SetOwn(L, k, v) == Put(L, k, [Acc(L, k) EXCEPT !.o = v])

RECURSIVE SumSeedLen(_)
SumSeedLen(s) == IF s = <<>> THEN 0 ELSE 4 + SeedLen(Head(s)) + SumSeedLen(Tail(s))
MetaLen(seeds) == 8 + 8 + 1 + 4 + SumSeedLen(seeds) + 32

DLen(d) == CASE d.t = "raw" -> d.n
             [] d.t = "rec" -> 96
             [] d.t = "meta" -> MetaLen(d.seeds)
             [] d.t = "cr" -> 88
             [] d.t = "cfg" -> 12 + 32 * Len(d.v)
             [] d.t = "pd" -> 77
NoData(L, k) == DLen(Dat(L, k)) = 0
Rent(n) == N((128 + n) * 6960)
Max(a, b) == IF Le(a, b) THEN b ELSE a
Missing(have, want) == IF Lt(have, want) THEN Sub(want, have) ELSE Zero

Good(L) == [ok |-> TRUE, L |-> L]
Bad == [ok |-> FALSE, L |-> <<>>]
Then(r, F(_)) == IF r.ok THEN F(r.L) ELSE r

(* --- the calling instruction's privileges; e.a is its account list --- *)
Keys(e) == {e.a[i].k : i \in 1..Len(e.a)}
IsS(e, k) == \E i \in 1..Len(e.a) : e.a[i].k = k /\ e.a[i].s
IsW(e, k) == \E i \in 1..Len(e.a) : e.a[i].k = k /\ e.a[i].w

(* --- system program --- *)
(* moving lamports, whatever the privileges *)
Move(L, f, t, v) == IF f = t THEN L
                    ELSE LET L1 == SetLam(L, f, Sub(Lam(L, f), v))
                         IN SetLam(L1, t, Add(Lam(L1, t), v))
CanPay(L, f, v) == NoData(L, f) /\ Le(v, Lam(L, f)) /\ (Own(L, f) = "sys" \/ v = Zero)
XferOp(L, f, t, v) == IF CanPay(L, f, v) THEN Good(Move(L, f, t, v)) ELSE Bad
(* a transfer requested by the program through a cross-program call *)
CpiXfer(L, e, f, t, v) ==
  IF "sys" \in Keys(e) /\ IsS(e, f) /\ IsW(e, f) /\ IsW(e, t) THEN XferOp(L, f, t, v) ELSE Bad

MaxGrow == 10240   \* largest growth of an account within one instruction

(* creation of a derived account of the program, possibly pre-funded *)
CreatePda(L, e, t, own, space, payer) ==
  LET fresh == Own(L, t) = "sys" /\ NoData(L, t)
      fin(M) == Good(Put(M, t, [l |-> Lam(M, t), o |-> own, d |-> RawZ(space)]))
      miss == Missing(Lam(L, t), Rent(space))
  IN IF ~fresh \/ ~IsW(e, t) \/ "sys" \notin Keys(e) \/ space > MaxGrow THEN Bad
     ELSE IF miss = Zero THEN fin(L)
     ELSE Then(CpiXfer(L, e, payer, t, miss), fin)

(* --- end of a transaction --- *)
RentClass(L, k) == IF Lam(L, k) = Zero THEN "none"
                   ELSE IF Le(Rent(DLen(Dat(L, k))), Lam(L, k)) THEN "exempt" ELSE "paying"
(* accounts may not become rent-paying *)
RentOk(L, M, ks) ==
  \A k \in ks : RentClass(M, k) = "paying" =>
     /\ RentClass(L, k) = "paying"
     /\ DLen(Dat(L, k)) = DLen(Dat(M, k))
     /\ Le(Lam(M, k), Lam(L, k))
(* accounts without lamports disappear *)
Sweep(L) == IF \E k \in DOMAIN L : L[k].l = Zero
            THEN [k \in {y \in DOMAIN L : L[y].l # Zero} |-> L[k]]
            ELSE L
==========================================================================
