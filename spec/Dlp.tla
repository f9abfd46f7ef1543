-------------------------------- MODULE Dlp --------------------------------
(* The delegation program: one operator per instruction, each a guard and   *)
(* an effect on the ledger.  An event e is a call:                           *)
(*   e.n     instruction     e.a     accounts [k |-> name, s, w]             *)
(*   e.args  decoded arguments (args.ok: they decode)                        *)
(*   e.dv    for Delegate: the address the seeds derive for the named owner  *)
(*   e.slot  the current slot          e.cb  how the owner program behaves   *)
EXTENDS Ledger

OnCurve == {"U1","U2","V1","V2","V3","ADM","UPA","ATT","FEE","W1","W2","SB1","SB2"}
Programs == {"PROG", "PROG2"}
A(e, i) == e.a[i].k

Rec(L, x) == Acc(L, "rec/" \o x)
Meta(L, x) == Acc(L, "meta/" \o x)
CS(L, x) == Acc(L, "cs/" \o x)
CR(L, x) == Acc(L, "cr/" \o x)
IsDlp(L, k) == Own(L, k) = "dlp"
Uninit(L, k) == Own(L, k) = "sys" /\ NoData(L, k)
EscKey(u, i) == "esc/" \o u \o "/" \o ToString(i)
(* the upgrade authority recorded in the program-data account of program p *)
UpAuth(L, p) == LET d == Dat(L, "pd/" \o p) IN IF d.t = "pd" THEN d.auth ELSE "none"

(* ------------------------------ Delegate ------------------------------ *)
Delegate(L, e) ==
  IF Len(e.a) # 7 \/ ~e.args.ok THEN Bad ELSE
  LET p == A(e,1)  x == A(e,2)  own == A(e,3)  buf == A(e,4)
      rec == "rec/" \o x  meta == "meta/" \o x
  IN IF \/ ~IsDlp(L, x) \/ A(e,7) # "sys"
        \/ (x \notin OnCurve /\ e.dv # x)
        \/ buf # "buf/" \o x \o "/" \o own \/ ~IsW(e, buf)
        \/ A(e,5) # rec \/ ~Uninit(L, rec) \/ ~IsW(e, rec)
        \/ A(e,6) # meta \/ ~Uninit(L, meta) \/ ~IsW(e, meta)
        \/ ~IsS(e, p) \/ ~IsS(e, x)
        \/ Lam(L, x) = Zero
     THEN Bad ELSE
     LET record(M) == Good(SetDat(M, rec,
               [t |-> "rec", auth |-> e.args.val, own |-> own, slot |-> e.slot,
                lam |-> Lam(M, x), freq |-> e.args.freq]))
         mk(M) == CreatePda(M, e, meta, "dlp", MetaLen(e.args.seeds), p)
         metadata(M) == Good(SetDat(M, meta,
               [t |-> "meta", last |-> Zero, und |-> FALSE, seeds |-> e.args.seeds, payer |-> p]))
         copy(M) == IF NoData(M, buf) THEN Good(M)
                    ELSE IF DLen(Dat(M, buf)) # DLen(Dat(M, x)) \/ (~IsW(e, x) /\ Dat(M, buf) # Dat(M, x)) THEN Bad
                    ELSE Good(SetDat(M, x, Dat(M, buf)))
     IN Then(Then(Then(Then(CreatePda(L, e, rec, "dlp", 96, p), record), mk), metadata), copy)

(* ------------------------------- Commit ------------------------------- *)
(* the contents of an account as plain data ("~": not tracked) *)
Bytes(d) == IF d.t = "raw" THEN d ELSE [t |-> "raw", n |-> DLen(d), x |-> "~"]
(* o: offset of the vault in the account list; d: the committed data *)
CommitWith(L, e, o, d) ==
  LET v == A(e,1)  x == A(e,2)  cs == A(e,3)  cr == A(e,4)
      rec == "rec/" \o x  meta == "meta/" \o x  vv == "vv/" \o v
      r == Dat(L, rec)  m == Dat(L, meta)
  IN IF \/ ~IsDlp(L, x) \/ ~IsS(e, v)
        \/ A(e,5) # rec \/ ~IsDlp(L, rec)
        \/ A(e,6) # meta \/ ~IsDlp(L, meta) \/ ~IsW(e, meta)
        \/ A(e,o) # vv \/ ~IsDlp(L, vv)
        \/ A(e,o+2) # "sys"
        \/ m.t # "meta"
     THEN Bad
     ELSE IF Lt(e.args.slot, m.last) THEN Good(L)          \* outdated: skipped
     ELSE IF m.und \/ r.t # "rec" THEN Bad
     ELSE IF Lt(Lam(L, x), r.lam) THEN Bad
     ELSE
     LET L1 == SetDat(L, meta, [m EXCEPT !.und = e.args.und])
         extra == Missing(r.lam, e.args.lam)
         cfg == A(e, o+1)
         deposit == IF extra = Zero THEN Good(L1) ELSE CpiXfer(L1, e, v, cs, extra)
         admitted(M) == IF \/ cfg # "cfg/" \o r.own \/ IsW(e, cfg)
                           \/ (Own(M, cfg) # "sys" /\
                               (Dat(M, cfg).t # "cfg" \/ v \notin {Dat(M, cfg).v[i] : i \in 1..Len(Dat(M, cfg).v)}))
                           \/ cs # "cs/" \o x \/ ~Uninit(M, cs) \/ ~IsW(e, cs)
                           \/ cr # "cr/" \o x \/ ~Uninit(M, cr) \/ ~IsW(e, cr)
                        THEN Bad ELSE Good(M)
         mk1(M) == CreatePda(M, e, cs, "dlp", DLen(d), v)
         mk2(M) == CreatePda(M, e, cr, "dlp", 88, v)
         fill(M) == Good(SetDat(SetDat(M, cs, d), cr,
                      [t |-> "cr", id |-> v, acc |-> x, slot |-> e.args.slot, lam |-> e.args.lam]))
     IN Then(Then(Then(Then(deposit, admitted), mk1), mk2), fill)

Commit(L, e) == IF Len(e.a) # 9 \/ ~e.args.ok THEN Bad ELSE CommitWith(L, e, 7, e.args.d)
(* the buffer stays borrowed: it cannot be an account that the commit writes or creates, or that pays *)
CommitB(L, e) ==
  IF Len(e.a) # 10 \/ ~e.args.ok THEN Bad
  ELSE LET r == CommitWith(L, e, 8, Bytes(Dat(L, A(e,7)))) IN
       IF A(e,7) \in {A(e,1), A(e,3), A(e,4), A(e,6)} /\ r.L # L THEN Bad ELSE r

(* ------------------------------ Finalize ------------------------------ *)
Close(L, k, to) == LET L1 == Move(L, k, to, Lam(L, k)) IN Put(L1, k, NoAcc)

Settle(L, x, cs, vv, was, now) ==
  IF Lt(now, was) THEN (IF Le(Sub(was, now), Lam(L, x)) THEN Good(Move(L, x, vv, Sub(was, now))) ELSE Bad)
  ELSE IF Lt(was, now) THEN (IF Le(Sub(now, was), Lam(L, cs)) THEN Good(Move(L, cs, x, Sub(now, was))) ELSE Bad)
  ELSE Good(L)

Finalize(L, e) ==
  IF Len(e.a) # 8 THEN Bad ELSE
  LET v == A(e,1)  x == A(e,2)  cs == A(e,3)  cr == A(e,4)
      rec == "rec/" \o x  meta == "meta/" \o x  vv == "vv/" \o v
      r == Dat(L, rec)  m == Dat(L, meta)  c == Dat(L, cr)
  IN IF \/ ~IsS(e, v) \/ ~IsDlp(L, x)
        \/ A(e,5) # rec \/ ~IsDlp(L, rec) \/ ~IsW(e, rec)
        \/ A(e,6) # meta \/ ~IsDlp(L, meta) \/ ~IsW(e, meta)
        \/ A(e,7) # vv \/ ~IsDlp(L, vv) \/ ~IsW(e, vv)
        \/ A(e,8) # "sys"
        \/ cs # "cs/" \o x \/ cr # "cr/" \o x
     THEN Bad
     ELSE IF Uninit(L, cs) /\ Uninit(L, cr) THEN Good(L)     \* nothing to finalize: skipped
     ELSE IF \/ ~IsDlp(L, cs) \/ ~IsW(e, cs) \/ ~IsDlp(L, cr) \/ ~IsW(e, cr)
             \/ c.t # "cr" \/ r.t # "rec" \/ m.t # "meta"
             \/ c.acc # x \/ c.id # v
             \/ ~IsW(e, x) \/ ~IsW(e, v)
             \/ DLen(Dat(L, cs)) > DLen(Dat(L, x)) + MaxGrow
          THEN Bad
     ELSE
     LET upd(M) == LET M1 == SetDat(M, meta, [m EXCEPT !.last = c.slot])
                       M2 == SetDat(M1, rec, [r EXCEPT !.lam = Lam(M, x)])
                       M3 == SetDat(M2, x, Dat(M, cs))
                   IN Good(Close(Close(M3, cs, v), cr, v))
     IN Then(Settle(L, x, cs, vv, r.lam, c.lam), upd)

(* ----------------------------- Undelegate ----------------------------- *)
(* The fees: 10% of the closed account, of which 10% to the protocol. *)
CloseWithFees(L, k, rp, vv, fv) ==
  LET l == Lam(L, k)  fee == Div10(l)  prot == Div10(fee)
      L1 == Move(L, k, vv, Sub(fee, prot))
      L2 == Move(L1, k, fv, prot)
      L3 == Move(L2, k, rp, Sub(l, fee))
  IN Put(L3, k, NoAcc)

(* The owner program's call-back: it must re-create the account from the    *)
(* buffer.  pays: what it takes from the validator; d: the data it restores. *)
Callback(L, e, x, own) ==
  LET d == Dat(L, x)  n == DLen(d)
      mode == e.cb
      res == CASE mode = "honest" -> [pays |-> Rent(n), d |-> d, o |-> own]
               [] mode = "zero" -> [pays |-> Rent(n), d |-> RawZ(n), o |-> own]
               [] mode = "other" -> [pays |-> Rent(n), d |-> RawZ(n), o |-> "PROG2"]
               [] OTHER -> [pays |-> Zero, d |-> d, o |-> "!"]       \* one of the hostile ones
      genuine == own \in Programs /\ x \in PdaNames /\ PdaProg(x) = own
  IN IF ~genuine \/ res.o = "!" \/ res.d # d THEN [ok |-> FALSE, o |-> own]
     ELSE [ok |-> TRUE, o |-> res.o]

Undelegate(L, e) ==
  IF Len(e.a) # 12 THEN Bad ELSE
  LET v == A(e,1)  x == A(e,2)  own == A(e,3)  ub == A(e,4)  cs == A(e,5)  cr == A(e,6)
      rp == A(e,9)  fv == A(e,10)
      rec == "rec/" \o x  meta == "meta/" \o x  vv == "vv/" \o v
      r == Dat(L, rec)  m == Dat(L, meta)
      cleanup(M) == Good(CloseWithFees(CloseWithFees(M, rec, rp, vv, fv), meta, rp, vv, fv))
  IN IF \/ ~IsS(e, v) \/ ~IsDlp(L, x)
        \/ A(e,7) # rec \/ ~IsDlp(L, rec) \/ ~IsW(e, rec)
        \/ A(e,8) # meta \/ ~IsDlp(L, meta) \/ ~IsW(e, meta)
        \/ fv # "fv" \/ ~IsDlp(L, "fv") \/ ~IsW(e, "fv")
        \/ A(e,11) # vv \/ ~IsDlp(L, vv) \/ ~IsW(e, vv)
        \/ A(e,12) # "sys"
        \/ cs # "cs/" \o x \/ ~Uninit(L, cs) \/ cr # "cr/" \o x \/ ~Uninit(L, cr)
        \/ r.t # "rec" \/ m.t # "meta"
        \/ r.own # own \/ ~m.und \/ m.payer # rp
        \/ ~IsW(e, x) \/ ~IsW(e, rp)
     THEN Bad
     ELSE IF NoData(L, x) THEN cleanup(SetOwn(L, x, own))
     ELSE
     LET n == DLen(Dat(L, x))
         was == Acc(L, x)
         cb == Callback(L, e, x, own)
         (* with the account's lamports in hand, the validator pays its rent back *)
         body(M) == IF ~cb.ok \/ Lt(was.l, Rent(n)) \/ ~CanPay(M, v, Zero) THEN Bad
                    ELSE Good(Put(M, x, [was EXCEPT !.o = cb.o]))
         drop(M) == Good(Close(M, ub, v))
     IN IF ub # "ubuf/" \o x \/ ~Uninit(L, ub) \/ ~IsW(e, ub) THEN Bad
        ELSE Then(Then(Then(CreatePda(L, e, ub, "dlp", n, v), body), drop), cleanup)

(* --------------------------- vaults and fees --------------------------- *)
InitFV(L, e) ==
  IF Len(e.a) # 3 THEN Bad ELSE
  IF ~IsS(e, A(e,1)) \/ A(e,3) # "sys" \/ A(e,2) # "fv" \/ ~Uninit(L, "fv") \/ ~IsW(e, "fv") THEN Bad
  ELSE CreatePda(L, e, "fv", "dlp", 8, A(e,1))

AdminOk(L, e, adm, pd) == IsS(e, adm) /\ pd = "pd/dlp" /\ UpAuth(L, "dlp") = adm /\ adm # "none"

InitVV(L, e) ==
  IF Len(e.a) # 6 THEN Bad ELSE
  LET vv == "vv/" \o A(e,4) IN
  IF \/ ~IsS(e, A(e,1)) \/ A(e,6) # "sys" \/ ~AdminOk(L, e, A(e,2), A(e,3))
     \/ A(e,5) # vv \/ ~Uninit(L, vv) \/ ~IsW(e, vv)
  THEN Bad ELSE CreatePda(L, e, vv, "dlp", 8, A(e,1))

CloseVV(L, e) ==
  IF Len(e.a) # 5 THEN Bad ELSE
  LET v == A(e,4)  vv == "vv/" \o v IN
  IF \/ ~IsS(e, A(e,1)) \/ ~AdminOk(L, e, A(e,2), A(e,3))
     \/ A(e,5) # vv \/ ~IsDlp(L, vv) \/ ~IsW(e, vv) \/ ~IsW(e, v)
  THEN Bad ELSE Good(Close(L, vv, v))

VClaim(L, e) ==
  IF Len(e.a) # 3 \/ ~e.args.ok THEN Bad ELSE
  LET v == A(e,1)  vv == "vv/" \o v
      free == Missing(Rent(8), Lam(L, vv))
      amt == IF e.args.some THEN e.args.amt ELSE free
      fee == Div10(amt)
  IN IF \/ ~IsS(e, v) \/ A(e,2) # "fv" \/ ~IsDlp(L, "fv") \/ ~IsW(e, "fv")
        \/ A(e,3) # vv \/ ~IsDlp(L, vv) \/ ~IsW(e, vv)
        \/ Lt(free, amt) \/ (amt # Zero /\ ~IsW(e, v))
     THEN Bad
     ELSE Good(Move(Move(L, vv, "fv", fee), vv, v, Sub(amt, fee)))

PClaim(L, e) ==
  IF Len(e.a) # 3 THEN Bad ELSE
  LET adm == A(e,1)  free == Missing(Rent(8), Lam(L, "fv")) IN
  IF \/ A(e,2) # "fv" \/ ~IsDlp(L, "fv") \/ ~IsW(e, "fv") \/ ~AdminOk(L, e, adm, A(e,3))
     \/ Lt(Lam(L, "fv"), Rent(8)) \/ (free # Zero /\ ~IsW(e, adm))
  THEN Bad ELSE Good(Move(L, "fv", adm, free))

(* ------------------------------ whitelist ------------------------------ *)
CfgSet(d) == IF d.t = "cfg" THEN {d.v[i] : i \in 1..Len(d.v)} ELSE {}
(* stored in address order, which the specification does not know: any order stands for the set *)
RECURSIVE SetToSeqR(_)
SetToSeqR(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE z \in S : TRUE IN <<y>> \o SetToSeqR(S \ {y})

Wl(L, e) ==
  IF Len(e.a) # 7 \/ ~e.args.ok THEN Bad ELSE
  LET au == A(e,1)  v == A(e,2)  p == A(e,3)  pdp == A(e,4)  pdd == A(e,5)  cfg == A(e,6)
      adm == UpAuth(L, "dlp")  pau == UpAuth(L, p)
  IN IF \/ ~IsS(e, au) \/ pdd # "pd/dlp" \/ adm = "none"
        \/ ~(au = adm \/ (pdp = "pd/" \o p /\ pau # "none" /\ au = pau))
        \/ A(e,7) # "sys" \/ cfg # "cfg/" \o p \/ ~IsW(e, cfg)
     THEN Bad ELSE
     LET cur == Dat(L, cfg)
         open == IF Own(L, cfg) = "sys" THEN CreatePda(L, e, cfg, "dlp", 0, au)
                 ELSE IF cur.t = "cfg" THEN Good(L) ELSE Bad
         s0 == IF Own(L, cfg) = "sys" THEN {} ELSE CfgSet(cur)
         s1 == IF e.args.ins THEN s0 \cup {v} ELSE s0 \ {v}
         new == [t |-> "cfg", v |-> SetToSeqR(s1)]
         pay(M) == CpiXfer(M, e, au, cfg, Missing(Lam(M, cfg), Rent(DLen(new))))
         write(M) == Good(SetDat(M, cfg, new))
     IN Then(Then(open, pay), write)

(* ------------------------------- escrows ------------------------------- *)
TopUp(L, e) ==
  IF Len(e.a) # 4 \/ ~e.args.ok THEN Bad ELSE
  LET p == A(e,1)  esc == EscKey(A(e,2), e.args.idx) IN
  IF ~IsS(e, p) \/ A(e,4) # "sys" \/ A(e,3) # esc \/ ~IsW(e, esc) THEN Bad ELSE
  LET open == IF Own(L, esc) = "sys" THEN CreatePda(L, e, esc, "sys", 0, p) ELSE Good(L)
      pay(M) == IF e.args.amt = Zero THEN Good(M) ELSE CpiXfer(M, e, p, esc, e.args.amt)
  IN Then(open, pay)

(* holder's escrow seeds, as Delegate sees them: derivation is checked by address *)
DelEsc(L, e) ==
  IF Len(e.a) # 8 \/ ~e.args.ok THEN Bad ELSE
  LET p == A(e,1)  u == A(e,2)  x == A(e,3)  esc == EscKey(u, e.args.idx)
      names == {A(e,i) : i \in 4..6}
      want == {"buf/" \o esc \o "/sys", "rec/" \o esc, "meta/" \o esc}
      inner == [n |-> "delegate", dv |-> esc, slot |-> e.slot, cb |-> e.cb,
                args |-> [ok |-> TRUE, freq |-> e.args.freq, val |-> e.args.val,
                          seeds |-> IF esc \in PdaNames THEN SeedsOf(esc) ELSE <<>>],
                a |-> << [k |-> p, s |-> TRUE, w |-> TRUE], [k |-> esc, s |-> TRUE, w |-> TRUE],
                         [k |-> "sys", s |-> FALSE, w |-> FALSE],
                         [k |-> "buf/" \o esc \o "/sys", s |-> FALSE, w |-> TRUE],
                         [k |-> "rec/" \o esc, s |-> FALSE, w |-> TRUE],
                         [k |-> "meta/" \o esc, s |-> FALSE, w |-> TRUE],
                         [k |-> "sys", s |-> FALSE, w |-> FALSE] >>]
  IN IF \/ ~IsS(e, p) \/ ~IsS(e, u) \/ A(e,7) # "sys" \/ A(e,8) # "dlp" \/ x # esc
        \/ ~IsW(e, x) \/ ~IsW(e, p) \/ ~(want \subseteq Keys(e)) \/ \E k \in want : ~IsW(e, k)
        \/ Own(L, x) \notin {"sys", "dlp"} \/ ~NoData(L, x)
     THEN Bad ELSE Delegate(SetOwn(L, x, "dlp"), inner)

CloseEsc(L, e) ==
  IF Len(e.a) # 3 \/ ~e.args.ok THEN Bad ELSE
  LET u == A(e,1)  esc == EscKey(u, e.args.idx) IN
  IF ~IsS(e, u) \/ A(e,2) # esc \/ ~IsW(e, esc) \/ Own(L, esc) # "sys" THEN Bad
  ELSE IF Lam(L, esc) = Zero THEN Good(L)
  ELSE IF "sys" \notin Keys(e) \/ ~IsW(e, u) \/ ~NoData(L, esc) THEN Bad
  ELSE Good(Move(L, esc, u, Lam(L, esc)))

(* -------------------------------- calls -------------------------------- *)
Step(L, e) ==
  CASE e.n = "delegate" -> Delegate(L, e)     [] e.n = "commit" -> Commit(L, e)
    [] e.n = "commitb" -> CommitB(L, e)       [] e.n = "finalize" -> Finalize(L, e)
    [] e.n = "undelegate" -> Undelegate(L, e) [] e.n = "initfv" -> InitFV(L, e)
    [] e.n = "initvv" -> InitVV(L, e)         [] e.n = "closevv" -> CloseVV(L, e)
    [] e.n = "vclaim" -> VClaim(L, e)         [] e.n = "pclaim" -> PClaim(L, e)
    [] e.n = "wl" -> Wl(L, e)                 [] e.n = "topup" -> TopUp(L, e)
    [] e.n = "delesc" -> DelEsc(L, e)         [] e.n = "closeesc" -> CloseEsc(L, e)
    [] OTHER -> Bad
===========================================================================
