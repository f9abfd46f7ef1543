------------------------------- MODULE Trace -------------------------------
(* Checks recorded executions of the real program against the specification. *)
(* Each line of the trace file is one behaviour; every record of it is one    *)
(* step here, which takes over the observed ledger and judges it:             *)
(*  - every call the program accepted, by the clauses of Props;               *)
(*  - every transaction the specification accepts from the same ledger and    *)
(*    that was refused (completeness);                                        *)
(*  - the ledger left by each transaction, by the invariants;                 *)
(*  - paired runs from one state (with and without a deposit, direct and      *)
(*    buffered commits), and attempts to bring an account home.               *)
EXTENDS Props, Json, IOUtils

P0 == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
Drift == "DRIFT" \in DOMAIN IOEnv /\ IOEnv.DRIFT = "1"
Sel == IF P0 = "ALL" THEN AllProps ELSE {P0}
On(p) == p \in Sel

VARIABLES b, i, L, slot, stk, keep, last, T, cnt
vars == <<b, i, L, slot, stk, keep, last, T, cnt>>
(* stk: ledgers to return to; keep: result of the last branch left; last: success of the last transaction *)

Rec1 == Traces[b][i]
Say(tag, v) == PrintT(tag \o " " \o ToJson(v))
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE z \in S : TRUE IN <<y>> \o SeqOfSet(S \ {y})
Report(vs) == IF vs = {} THEN TRUE ELSE Say("@VIOL", [b |-> b, i |-> i, v |-> SeqOfSet(vs)])
Tag(p, S) == {p \o ":" \o s : s \in S}

(* --------------------------------- calls --------------------------------- *)
Roots(r) == SelectSeq(r.ev, LAMBDA e : e.root)
EvOf(e, cb) == [n |-> e.n, args |-> e.args, a |-> e.a, dv |-> e.dv, slot |-> slot, cb |-> cb]
(* the calls of a successful transaction: [e, L, M] each *)
RECURSIVE Chain(_, _, _, _)
Chain(M, evs, cb, acc) ==
  IF evs = <<>> THEN acc
  ELSE LET o == Head(evs)  L1 == PutAll(M, o.pre)  L2 == PutAll(L1, o.post)
       IN Chain(L2, Tail(evs), cb, Append(acc, [e |-> EvOf(o, cb), L |-> L1, M |-> L2]))
JudgeCall(c) == UNION {Tag(p, Judge(p, c.e, c.L, c.M)) : p \in Sel}

(* the calls a property is about, for the coverage account *)
About(p, c) ==
  LET e == c.e IN
  CASE p \in {"C01", "C02"} -> IsDel(e)
    [] p = "C23" -> e.n = "delesc" \/ (e.n = "undelegate" /\ Shaped(e) /\ X(e) \in Escrows)
    [] p \in {"C04", "C05"} -> Shaped(e) /\ Staged(c.L, c.M, e)
    [] p = "C09" -> Shaped(e) /\ Staged(c.L, c.M, e) /\ RecReadable(c.L, X(e)) /\ Lt(RecD(c.L, X(e)).lam, e.args.lam)
    [] p \in {"C06"} -> Shaped(e) /\ e.n \in {"commit", "commitb", "finalize"} /\ Pending(c.L, X(e))
    [] p = "C07" -> Shaped(e) /\ (Outdated(c.L, e) \/ (e.n = "finalize" /\ Pending(c.L, X(e))))
    [] p = "C08" -> Shaped(e) /\ IsCommit(e) /\ e.args.und
    [] p \in {"C10", "C11"} -> Shaped(e) /\ e.n = "finalize" /\ Pending(c.L, X(e))
    [] p = "C12" -> Shaped(e) /\ e.n = "finalize" /\ Pending(c.L, X(e)) /\ Lam(c.L, X(e)) # Lam(c.M, X(e))
    [] p = "C13" -> Shaped(e) /\ e.n = "finalize" /\ ~Pending(c.L, X(e))
    [] p \in {"C14", "C15", "C16"} -> e.n = "undelegate"
    [] p = "C17" -> e.n = "vclaim" [] p = "C18" -> e.n = "pclaim" [] p = "C19" -> e.n \in {"initvv", "closevv", "initfv"}
    [] p = "C20" -> e.n = "wl" [] p = "C21" -> e.n = "topup" [] p = "C22" -> e.n = "closeesc"
    [] OTHER -> TRUE

(* ----------------------------- whole transactions ----------------------------- *)
Bump(f, S) == [k \in DOMAIN f \cup S |-> (IF k \in DOMAIN f THEN f[k] ELSE 0) + (IF k \in S THEN 1 ELSE 0)]
Mutated(op) == (IF "mut" \in DOMAIN op THEN op.mut # <<>> ELSE FALSE) \/ (IF "in" \in DOMAIN op THEN op.in # <<>> ELSE FALSE)
Honest(r) == \A q \in 1..Len(r.ops) : ~Mutated(r.ops[q])
IsPinned(op) == IF "pin" \in DOMAIN op THEN op.pin ELSE FALSE
SessionOps == {"delegate", "pdel", "commit", "commitb", "finalize", "undelegate"}
NotCalls == {"xfer", "assign"}

(* the specification accepts the transaction; the program refused it *)
Refusal(r, x) ==
  LET k == r.ei + 1
      ops == IF r.et = "ix" /\ k <= Len(r.ops) THEN {r.ops[k]} ELSE {r.ops[q] : q \in 1..Len(r.ops)}
      c == IF r.et = "ix" /\ k <= Len(r.ops) THEN x[k] ELSE <<>>
      one(op) ==
        (IF op.op \in SessionOps THEN {"C26:refused-" \o op.op} ELSE IF op.op \in NotCalls THEN {} ELSE {"C27:refused-" \o op.op})
        \cup (IF IsPinned(op) THEN {"C32:old-client-refused-" \o op.op} ELSE {})
        \cup (IF op.op = "finalize" /\ c # <<>> /\ ~Pending(c, op.x) THEN {"C13:refused"} ELSE {})
        \cup (IF op.op \in {"commit", "commitb"} /\ c # <<>> /\ MetaReadable(c, op.x) /\ Lt(op.slot, MetaD(c, op.x).last)
              THEN {"C07:outdated-commit-refused"} ELSE {})
        \cup (IF op.op = "closeesc" /\ c # <<>> /\ Lam(c, EscKey(op.u, op.idx)) = Zero THEN {"C22:closing-empty-refused"} ELSE {})
        \cup (IF op.op = "closeesc" THEN {"C23:closing-refused"} ELSE {})
        \cup (IF op.op = "wl" THEN {"C20:refused"} ELSE {})
        \cup (IF op.op = "topup" /\ r.et = "rent" THEN {"C21:not-rent-exempt"} ELSE {})
  IN UNION {one(op) : op \in ops} \cup (IF r.et = "rent" THEN {"C30:left-rent-paying"} ELSE {})
RECURSIVE Befores(_, _, _, _, _, _)
Befores(M, ops, S, W, cb, acc) ==     \* the ledger before each operation, as specified
  IF ops = <<>> THEN acc
  ELSE LET q == ExecOp(M, Head(ops), S, W, slot, cb)
       IN IF ~q.ok THEN Append(acc, M) ELSE Befores(q.L, Tail(ops), S, W, cb, Append(acc, M))

NormD(d) == IF d.t = "cfg" THEN [t |-> "cfg", v |-> {d.v[q] : q \in 1..Len(d.v)}] ELSE d
NormA(a) == [l |-> a.l, o |-> a.o, d |-> NormD(a.d)]
Vague(a, q) == a.d.t = "raw" /\ a.d.x = "~" /\ q.d.t = "raw" /\ [a EXCEPT !.d.x = ""] = [q EXCEPT !.d.x = ""]
Differ(M1, M2) == {k \in DOMAIN M1 \cup DOMAIN M2 : NormA(Acc(M1, k)) # NormA(Acc(M2, k)) /\ ~Vague(Acc(M1, k), Acc(M2, k))}

(* the client library still builds the calls it built *)
CallOps(ops) == SelectSeq(ops, LAMBDA op : op.op \notin NotCalls)
ClientChanged(r, evs) ==
  LET co == CallOps(r.ops)  m == IF Len(co) < Len(evs) THEN Len(co) ELSE Len(evs) IN
  \E q \in 1..m :
    LET op == co[q]  e == evs[q]
        op2 == IF op.op = "pdel" THEN [op |-> "delegate", p |-> op.p, x |-> op.x, own |-> op.own, freq |-> op.freq, seeds |-> op.seeds, val |-> op.val]
               ELSE op
        al == CallAccounts(op2)
    IN ~Mutated(op) /\ ~(/\ e.n = op2.op /\ e.args = CallArgs(op2) /\ Len(e.a) = Len(al)
                         /\ \A z \in 1..Len(al) : e.a[z].k = al[z].k)

NamesIn(r) == DOMAIN r.post
SubjectsOf(ks) == {RecOf[k] : k \in ks \cap DOMAIN RecOf} \cup {MetaOf[k] : k \in ks \cap DOMAIN MetaOf}
                  \cup {CsOf[k] : k \in ks \cap DOMAIN CsOf} \cup {CrOf[k] : k \in ks \cap DOMAIN CrOf} \cup (ks \cap Deleg)

(* Known finding F1: a commit of balance zero, finalized, leaves the account *)
(* without lamports, so that it disappears while its delegation record stays. *)
SettledToZero(c) == c.e.n = "finalize" /\ Shaped(c.e) /\ Pending(c.L, X(c.e)) /\ Lam(c.M, X(c.e)) = Zero
                    /\ CrD(c.L, X(c.e)).t = "cr" /\ RecReadable(c.L, X(c.e)) /\ Lt(CrD(c.L, X(c.e)).lam, RecD(c.L, X(c.e)).lam)
                    /\ RecD(c.L, X(c.e)).lam = Add(CrD(c.L, X(c.e)).lam, Lam(c.L, X(c.e)))

Tx ==
  LET r == Rec1
      M == Sweep(PutAll(L, r.post))
      evs == Roots(r)
      chain == IF r.ok THEN Chain(L, evs, r.cb, <<>>) ELSE <<>>
      calls == {chain[q] : q \in 1..Len(chain)}
      honest == Honest(r)
      tx == [fp |-> r.fp, ops |-> r.ops, cb |-> r.cb]
      pred == IF honest THEN ExecTx(L, tx, slot) ELSE [ok |-> FALSE, L |-> L]
      newF1 == {X(c.e) : c \in {d \in calls : SettledToZero(d)}} \cap {x \in Deleg : Orphan(M, x)}
      T2 == T \cup newF1
      vs == (UNION {JudgeCall(c) : c \in calls})
            \cup (IF honest /\ pred.ok /\ ~r.ok
                  THEN Refusal(r, Befores(L, r.ops, TxSigners(tx), TxWrites(tx), r.cb, <<>>))
                  ELSE {})
            \cup (IF r.ok THEN UNION {Tag(p, Inv(p, M, T2, SubjectsOf(NamesIn(r)))) : p \in Sel} ELSE {})
            \cup (IF On("C25") /\ ~r.ok /\ DOMAIN r.post # {} THEN {"C25:failed-call-left-trace"} ELSE {})
            \cup (IF On("C32") /\ r.misread # <<>> THEN {"C32:library-reads-differently"} ELSE {})
            \cup (IF On("C32") /\ ClientChanged(r, evs) THEN {"C32:client-call-changed"} ELSE {})
            \cup (IF On("C32") /\ honest /\ pred.ok /\ r.ok /\ (\A q \in 1..Len(r.ops) : IsPinned(r.ops[q]))
                     /\ \E k \in Differ(pred.L, M) : NormD(Dat(pred.L, k)) # NormD(Dat(M, k)) /\ Dat(pred.L, k).t \in {"rec", "meta", "cr", "cfg"}
                  THEN {"C32:effect-of-old-client-call"} ELSE {})
      drift == IF ~Drift THEN {}
               ELSE IF honest THEN (IF pred.ok # r.ok THEN {"ok"} ELSE Differ(pred.L, M))
               ELSE UNION {LET st == Step(c.L, c.e) IN IF ~st.ok THEN {"call"} ELSE Differ(st.L, c.M) : c \in calls}
  IN /\ L' = M
     /\ T' = T2
     /\ last' = r.ok
     /\ cnt' = Bump(cnt, {"tx-" \o (IF r.ok THEN "ok" ELSE "refused")}
                 \cup (IF honest THEN {"predicted-" \o (IF pred.ok THEN "ok" ELSE "refused")} ELSE {"mutated"})
                 \cup {"call-" \o c.e.n : c \in calls}
                 \cup {"about-" \o p : p \in {q \in Sel : \E c \in calls : About(q, c)}})
     /\ (IF newF1 = {} THEN TRUE ELSE \A p \in Sel \cap {"C03", "C28"} : Say("@KNOWN", [p |-> p, f |-> "F1", b |-> b, i |-> i]))
     /\ Report({v \in vs : \E p \in Sel : SubSeq(v, 1, 3) = p})
     /\ (IF drift = {} THEN TRUE ELSE Say("@DRIFT", [b |-> b, i |-> i, d |-> SeqOfSet(drift)]))
     /\ UNCHANGED <<slot, stk, keep>>

(* ------------------------------- paired runs ------------------------------- *)
EqD(x, y) == IF x.t = "rec" /\ y.t = "rec" THEN [x EXCEPT !.lam = Zero] = [y EXCEPT !.lam = Zero] ELSE NormD(x) = NormD(y)
DepCompare(r) ==
  LET A1 == keep.L  B1 == L IN
  IF ~keep.ok \/ Lt(Lam(A1, "FEE"), Add(r.amt, Rent(0))) THEN {}      \* refused anyway, or the depositor runs dry
  ELSE IF ~last THEN {"deposit-blocks"}
  ELSE V(\A k \in DOMAIN A1 \cup DOMAIN B1 :
           k # r.at => Own(A1, k) = Own(B1, k) /\ EqD(Dat(A1, k), Dat(B1, k)), "deposit-changes-effect")
       \cup V(EqD(Dat(A1, r.at), Dat(B1, r.at)) /\ Own(A1, r.at) = Own(B1, r.at), "deposit-changes-account")
       \cup V(\A k \in DOMAIN A1 \cup DOMAIN B1 : k # "FEE" => Le(Lam(A1, k), Lam(B1, k)), "deposit-costs-somebody")
       \cup V(Le(Lam(A1, "FEE"), Add(Lam(B1, "FEE"), r.amt)), "deposit-costs-payer")
Cmp ==
  LET r == Rec1
      (* F1 again: without the deposit the account vanished *)
      lost == r.kind = "dep" /\ keep.T \ stk[Len(stk)].T # {}
      vs == IF lost THEN {} ELSE
            IF r.kind = "dep" THEN Tag("C29", DepCompare(r))
            ELSE Tag("C33", V(keep.ok = last, "accepted-differently")
                            \cup Imp(keep.ok /\ last, V(Differ(keep.L, L) = {}, "staged-differently")))
  IN /\ Report({v \in vs : \E p \in Sel : SubSeq(v, 1, 3) = p})
     /\ (IF lost /\ DepCompare(r) # {} /\ On("C29") THEN Say("@KNOWN", [p |-> "C29", f |-> "F2", b |-> b, i |-> i]) ELSE TRUE)
     /\ cnt' = Bump(cnt, {"about-" \o (IF r.kind = "dep" THEN "C29" ELSE "C33")} \cup (IF keep.ok THEN {"pair-ok"} ELSE {"pair-refused"}))
     /\ UNCHANGED <<L, slot, stk, keep, last, T>>

(* the release procedure must succeed from here *)
Payers == OnCurve \ {"W1", "W2", "SB1", "SB2"}
Releasable(M, x) ==
  LET r == RecD(M, x)  m == MetaD(M, x)  c == CrD(M, x)
      adm == UpAuth(M, "dlp") \in Wallets
      len == IF Pending(M, x) THEN DLen(Dat(M, "cs/" \o x)) ELSE DLen(Dat(M, x))
      cfg == Dat(M, "cfg/" \o r.own)
      listed == IF IsDlp(M, "cfg/" \o r.own) THEN CfgSet(cfg) ELSE {"V1"}
      home == x \in PdaNames /\ PdaProg(x) = r.own /\ r.own \in Programs
      seedsOk == len = 0 \/ ~home \/ (m.t = "meta" /\ Derive(m.seeds, r.own) = x)
      wallet(k) == Own(M, k) = "sys" /\ (Dat(M, k).t = "raw" => DLen(Dat(M, k)) = 0)
  IN /\ r.t = "rec" /\ m.t = "meta" /\ IsDlp(M, x) /\ (Pending(M, x) => c.t = "cr" /\ c.id \in Payers /\ wallet(c.id))
     /\ seedsOk /\ len <= MaxGrow /\ adm /\ m.payer \in Wallets
     /\ (listed = {} \/ listed \cap Payers # {}) /\ (\A k \in (listed \cap Payers) \cup {"V1"} : wallet(k))
     /\ Dat(M, x).t = "raw" /\ ~Lt(Lam(M, "FEE"), <<0, 10, 0>>)
Reld ==
  LET r == Rec1  M == stk[Len(stk)].L IN
  /\ Report(IF On("C28") /\ ~r.done /\ r.x \notin T /\ Releasable(M, r.x) /\ ~Adrift(M, r.x) THEN {"C28:cannot-be-brought-home"} ELSE {})
  /\ (IF On("C28") /\ ~r.done /\ r.x \notin T /\ Releasable(M, r.x) /\ Adrift(M, r.x) THEN Say("@KNOWN", [p |-> "C28", f |-> "F3", b |-> b, i |-> i]) ELSE TRUE)
  /\ cnt' = Bump(cnt, {IF r.done THEN "released" ELSE "not-released"} \cup (IF Releasable(M, r.x) THEN {"about-C28r"} ELSE {}))
  /\ UNCHANGED <<L, slot, stk, keep, last, T>>

(* ------------------------------- other records ------------------------------- *)
Init0 == /\ L' = Sweep(Rec1.acc) /\ slot' = Rec1.slot /\ UNCHANGED <<stk, keep, last, T, cnt>>
EnvR == /\ L' = Sweep(PutAll(L, Rec1.post)) /\ UNCHANGED <<slot, stk, keep, last, T, cnt>>
SlotR == /\ slot' = Rec1.slot /\ UNCHANGED <<L, stk, keep, last, T, cnt>>
PushR == /\ stk' = Append(stk, [L |-> L, slot |-> slot, T |-> T]) /\ UNCHANGED <<L, slot, keep, last, T, cnt>>
PopR == LET s == stk[Len(stk)] IN
        /\ keep' = [L |-> L, ok |-> last, T |-> T] /\ L' = s.L /\ slot' = s.slot /\ T' = s.T
        /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED <<last, cnt>>

Init == /\ b \in 1..Len(Traces)
        /\ i = 1 /\ L = <<>> /\ slot = Zero /\ stk = <<>> /\ keep = [L |-> <<>>, ok |-> FALSE, T |-> {}] /\ last = FALSE
        /\ T = {} /\ cnt = <<>>
Next ==
  /\ i <= Len(Traces[b])
  /\ LET k == Rec1.k IN
     CASE k = "tx" -> Tx [] k = "init" -> Init0 [] k = "env" -> EnvR [] k = "slot" -> SlotR
       [] k = "push" -> PushR [] k = "pop" -> PopR [] k = "cmp" -> Cmp [] k = "reld" -> Reld
  /\ i' = i + 1
  /\ b' = b
  /\ (IF i # Len(Traces[b]) THEN TRUE ELSE Say("@END", [b |-> b, n |-> i, cnt |-> cnt']))
=============================================================================
