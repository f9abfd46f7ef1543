--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of the specification: from small initial ledgers,  *)
(* every sequence of the operations of a scene (amounts, slots and deposits   *)
(* kept within small bounds), with no bound on the length of the sequence.    *)
(* Every transition is judged by the clauses of Props, and every state by     *)
(* the invariants and by what must be possible from it.  With EMIT set, each   *)
(* state reached is written out as a behaviour that replays, on the real       *)
(* program, a path to it and then every operation of the scene from it.        *)
EXTENDS Props, Json, IOUtils, TLCExt

Prop == IOEnv.PROP
Scene == IOEnv.SCENE
Sel == IF Prop = "ALL" THEN AllProps ELSE {Prop}
On(p) == p \in Sel
EmitDir == IF "EMIT" \in DOMAIN IOEnv THEN IOEnv.EMIT ELSE ""
Depth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 99
Wide == IF "WIDE" \in DOMAIN IOEnv THEN atoi(IOEnv.WIDE) ELSE 1

VARIABLES L, T, bad, path, id
vars == <<L, T, bad, path, id>>

Slot0 == N(50)
RawD(k, l) == [t |-> "raw", n |-> k, x |-> IF k = 0 THEN "" ELSE l]
Wal(l) == [l |-> l, o |-> "sys", d |-> Empty]
Pd(a) == [l |-> Rent(77), o |-> "LOADER", d |-> [t |-> "pd", auth |-> a]]
Vault(l) == [l |-> Add(Rent(8), l), o |-> "dlp", d |-> RawZ(8)]
Rich == N(500000000)
One == N(1)
Free(a, b) == IF Lt(a, b) THEN Zero ELSE Sub(a, b)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE z \in S : TRUE IN <<y>> \o SeqOf(S \ {y})

Base0 == [U1 |-> Wal(Rich), U2 |-> Wal(Rich), V1 |-> Wal(Rich), V2 |-> Wal(Rich), ADM |-> Wal(Rich), UPA |-> Wal(Rich),
          ATT |-> Wal(Rich), FEE |-> Wal(Rich)]
         @@ ("pd/dlp" :> Pd("ADM")) @@ ("pd/PROG" :> Pd("UPA")) @@ ("pd/PROG2" :> Pd("U2"))
         @@ ("fv" :> Vault(Zero)) @@ ("vv/V1" :> Vault(Zero)) @@ ("vv/V2" :> Vault(Zero))
(* account A1 holds 2 lamports above the rent exemption of two bytes *)
Acct(n) == [l |-> Add(Rent(2), N(2)), o |-> "PROG", d |-> RawD(n, "d1")]
Lo(x) == IF x = "A1" \/ x = "A2" THEN Rent(2) ELSE Rent(0)
Hi(x) == Add(Lo(x), N(IF Scene = "esc" THEN 2 ELSE 4))

T1(fp, op) == [fp |-> fp, ops |-> <<op>>, cb |-> "honest"]
PDelOp(x, p) == [op |-> "pdel", prog |-> "PROG", own |-> "PROG", p |-> p, x |-> x, freq |-> N(7), seeds |-> SeedsOf(x),
                 val |-> "V1", mode |-> "honest"]
Uninit0(M, x) == ~IsDlp(M, "rec/" \o x)
R(M, x) == Dat(M, "rec/" \o x)
Mt(M, x) == Dat(M, "meta/" \o x)
(* commits: the balance below, at, above the recorded one, within the bounds of the scene; slots 0..2 *)
Lams(M, x) == LET r == R(M, x).lam IN
  {r} \cup (IF Lt(Lo(x), r) THEN {Sub(r, One)} ELSE {}) \cup (IF Lt(r, Hi(x)) THEN {Add(r, One)} ELSE {})
Slots(M, x) == LET s == Mt(M, x).last IN {s} \cup (IF s = Zero THEN {} ELSE {Sub(s, One)}) \cup (IF Lt(s, N(2)) THEN {Add(s, One)} ELSE {})
Datas(M, x) == IF x \in Escrows THEN {Empty, RawD(1, "d1")} ELSE {RawD(2, "d1"), RawD(1, "d2")}
Commits(M, x, vs) ==
  IF R(M, x).t # "rec" \/ Mt(M, x).t # "meta" THEN {}
  ELSE {T1(v, [op |-> "commit", v |-> v, x |-> x, own |-> R(M, x).own, slot |-> s, lam |-> l, und |-> u, d |-> d])
        : v \in vs, s \in Slots(M, x), l \in Lams(M, x), u \in BOOLEAN, d \in Datas(M, x)}
Fins(M, x, vs) == {T1(v, [op |-> "finalize", v |-> v, x |-> x]) : v \in vs}
Unds(M, x, vs, rps, cbs) ==
  {[T1(v, [op |-> "undelegate", v |-> v, x |-> x, own |-> IF R(M, x).t = "rec" THEN R(M, x).own ELSE "PROG", rp |-> rp]) EXCEPT !.cb = c]
   : v \in vs, rp \in rps, c \in cbs}
Dep(M, k, top) == IF Lt(Lam(M, k), top) /\ (Lam(M, k) # Zero \/ Lt(N(890879), top))
                  THEN {T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> k, amt |-> IF Lam(M, k) = Zero THEN Rent(0) ELSE One])} ELSE {}
WlOp(au, v, ins) == T1(au, [op |-> "wl", auth |-> au, v |-> v, prog |-> "PROG", ins |-> ins])
VOp(o, v, a) == T1("FEE", [op |-> o, p |-> "FEE", adm |-> a, v |-> v])

(* ------------------------------- scenes ------------------------------- *)
(* sess: one account, two validators, whitelist of its program, deposits   *)
(* two:  two accounts side by side                                          *)
(* esc:  escrows, topped up, delegated, closed                              *)
(* fee:  vaults, claims, admission, change of the upgrade authority          *)
(* wl:   whitelists of two programs                                          *)
Init0 ==
  CASE Scene = "sess" -> {Base0 @@ ("A1" :> Acct(2)),
                          Base0 @@ ("A1" :> Acct(2)) @@ ("cfg/PROG" :> [l |-> Rent(44), o |-> "dlp", d |-> [t |-> "cfg", v |-> <<"V1">>]])}
    [] Scene = "two" -> {Base0 @@ ("A1" :> Acct(2)) @@ ("A2" :> Acct(2))}
    [] Scene = "esc" -> {Base0 @@ ("esc/U1/0" :> Wal(Rent(0)))}
    [] Scene = "fee" -> {[k \in DOMAIN Base0 \ {"vv/V1", "vv/V2", "fv"} |-> Base0[k]]}
    [] Scene = "wl" -> {Base0 @@ ("A1" :> Acct(2))}

Alphabet(M) ==
  CASE Scene = "sess" ->
         {T1("FEE", PDelOp("A1", "U1")), T1("U2", PDelOp("A1", "U2"))}
         \cup Commits(M, "A1", {"V1", "V2"}) \cup Fins(M, "A1", {"V1", "V2"})
         \cup Unds(M, "A1", {"V1"}, {"U1", "U2"}, {"honest"}) \cup Unds(M, "A1", {"V2"}, {"U1"}, {"honest", "fail"})
         \cup Dep(M, "A1", Hi("A1")) \cup Dep(M, "cs/A1", N(890880)) \cup Dep(M, "cr/A1", N(890880))
         \cup (IF Wide > 1 THEN Dep(M, "ubuf/A1", N(890880)) \cup Dep(M, "rec/A1", N(890880)) ELSE {})
         \cup {VOp("closevv", "V2", "ADM"), VOp("initvv", "V2", "ADM")}
         \cup (IF Wide > 1 THEN {WlOp("UPA", "V2", TRUE), WlOp("UPA", "V2", FALSE), WlOp("UPA", "V1", FALSE)} ELSE {})
    [] Scene = "two" ->
         UNION {{T1("FEE", PDelOp(x, "U1"))}
           \cup {c \in Commits(M, x, {"V1"}) : c.ops[1].d = RawD(2, "d1") /\ c.ops[1].und /\ c.ops[1].slot = Mt(M, x).last}
           \cup {c \in Commits(M, x, {"V2"}) : c.ops[1].d = RawD(1, "d2") /\ ~c.ops[1].und /\ Lt(Mt(M, x).last, c.ops[1].slot) /\ c.ops[1].lam = R(M, x).lam}
           \cup Fins(M, x, {"V1", "V2"}) \cup Unds(M, x, {"V1"}, {"U1"}, {"honest"}) : x \in {"A1", "A2"}}
    [] Scene = "esc" ->
         UNION {LET u == EscOf[k][1]  i == EscOf[k][2] IN
             {T1("FEE", [op |-> "topup", p |-> p, u |-> u, amt |-> a, idx |-> i]) : p \in {"U1", "ATT"},
                 a \in {Zero} \cup (IF Lt(Lam(M, k), Hi(k)) THEN {One} ELSE {})}
             \cup {T1("FEE", [op |-> "closeesc", u |-> u, idx |-> i]), T1("ATT", [op |-> "closeesc", u |-> "ATT", idx |-> i])}
             \cup {T1("FEE", [op |-> "delesc", p |-> p, u |-> u, freq |-> N(7), seeds |-> SeedsOf(k), val |-> "sys", idx |-> i]) : p \in {u, "ATT"}}
             \cup (IF k = "esc/U2/0" THEN {} ELSE
                  {c \in Commits(M, k, {"V1"}) : Le(Mt(M, k).last, c.ops[1].slot) /\ (c.ops[1].slot = N(1) => c.ops[1].und)}
                  \cup Fins(M, k, {"V1"}) \cup Unds(M, k, {"V1"}, {u, "ATT"}, {"honest"}))
             \cup Dep(M, k, Hi(k)) : k \in {"esc/U1/0", "esc/U2/0"}}
    [] Scene = "fee" ->
         {VOp(o, v, a) : o \in {"initvv", "closevv"}, v \in {"V1", "V2"}, a \in {"ADM", "ATT"}}
         \cup {T1("FEE", [op |-> "initfv", p |-> "FEE"])}
         \cup {T1(a, [op |-> "pclaim", adm |-> a]) : a \in {"ADM", "ATT"}}
         \cup UNION {IF Lt(Add(Rent(8), N(2)), Lam(M, "fv")) THEN {} ELSE      \* until the protocol claims its share
                {T1(v, [op |-> "vclaim", v |-> v, some |-> FALSE, amt |-> Zero])}
                \cup {T1(v, [op |-> "vclaim", v |-> v, some |-> TRUE, amt |-> a])
                        : a \in {Zero, One, N(10), Free(Lam(M, "vv/" \o v), Rent(8)), Add(One, Free(Lam(M, "vv/" \o v), Rent(8)))}}
                \cup (IF Lt(Lam(M, "vv/" \o v), Add(Rent(8), N(12 * Wide)))
                      THEN {T1("FEE", [op |-> "xfer", from |-> "FEE", to |-> "vv/" \o v,
                                       amt |-> IF Lam(M, "vv/" \o v) = Zero THEN Rent(0) ELSE N(11)])} ELSE {}) : v \in {"V1", "V2"}}
    [] Scene = "wl" ->
         {T1(a, [op |-> "wl", auth |-> a, v |-> v, prog |-> p, ins |-> i]) : a \in {"ADM", "UPA", "U2", "ATT"}, v \in {"V1", "V2"},
             p \in {"PROG", "PROG2"}, i \in BOOLEAN}
         \cup Dep(M, "cfg/PROG", N(890880))
         \cup {T1("FEE", PDelOp("A1", "U1"))}
         \cup {c \in Commits(M, "A1", {"V1", "V2"}) : c.ops[1].d = RawD(2, "d1") /\ c.ops[1].slot = Zero /\ c.ops[1].lam = R(M, "A1").lam}
         \cup Fins(M, "A1", {"V1", "V2"}) \cup Unds(M, "A1", {"V1", "V2"}, {"U1"}, {"honest"})
(* the environment may move the upgrade authority *)
Envs(M) == IF Scene \in {"fee", "wl"} THEN {"pd/dlp" :> Pd(a) : a \in {"ADM", "ATT", "none"}} ELSE {}

(* wallets never run dry in these scenes; their balances, and in the scenes *)
(* without claims those of the vaults, influence nothing else                *)
Faded(k) == k \in Wallets \/ (Scene # "fee" /\ (k = "fv" \/ k \in DOMAIN VvOf))
View == <<[k \in DOMAIN L |-> IF Faded(k) THEN [L[k] EXCEPT !.l = Zero] ELSE L[k]], T, bad>>
StillRich == \A w \in DOMAIN Base0 \cap Wallets : Lt(N(100000000), Lam(L, w))

(* ------------------- what the documentation lets a user expect ------------------- *)
Vaulted(M, v) == IsDlp(M, "vv/" \o v)
Listed(M, own, v) == ~IsDlp(M, "cfg/" \o own) \/ v \in CfgSet(Dat(M, "cfg/" \o own))
Docs(M, op, cb) ==
  CASE op.op = "pdel" -> Own(M, op.x) = op.prog /\ ~Delegated(M, op.x) /\ op.own = op.prog /\ Derive(op.seeds, op.own) = op.x
    [] op.op \in {"commit", "commitb"} ->
         /\ Delegated(M, op.x) /\ Vaulted(M, op.v) /\ IsDlp(M, op.x)
         /\ \/ Lt(op.slot, Mt(M, op.x).last)
            \/ /\ ~Pending(M, op.x) /\ ~Mt(M, op.x).und /\ op.own = R(M, op.x).own /\ Listed(M, op.own, op.v)
    [] op.op = "finalize" -> \* the runtime refuses what leaves a balance below rent
         /\ Delegated(M, op.x) /\ IsDlp(M, op.x) /\ Vaulted(M, op.v)
         /\ Pending(M, op.x) => /\ CrD(M, op.x).id = op.v
                                /\ CrD(M, op.x).lam # Zero => Le(Rent(DLen(Dat(M, "cs/" \o op.x))), CrD(M, op.x).lam)
    [] op.op = "undelegate" ->
         /\ Delegated(M, op.x) /\ IsDlp(M, op.x) /\ Vaulted(M, op.v) /\ ~Pending(M, op.x) /\ Mt(M, op.x).und /\ IsDlp(M, "fv")
         /\ op.own = R(M, op.x).own /\ op.rp = Mt(M, op.x).payer /\ cb = "honest"
    [] op.op = "initfv" -> ~IsDlp(M, "fv")
    [] op.op = "initvv" -> op.adm = UpAuth(M, "dlp") /\ ~Vaulted(M, op.v)
    [] op.op = "closevv" -> op.adm = UpAuth(M, "dlp") /\ Vaulted(M, op.v)
    [] op.op = "vclaim" -> Vaulted(M, op.v) /\ IsDlp(M, "fv") /\ (op.some => Le(op.amt, Free(Lam(M, "vv/" \o op.v), Rent(8))))
    [] op.op = "pclaim" -> IsDlp(M, "fv") /\ op.adm = UpAuth(M, "dlp")
    [] op.op = "wl" -> op.auth \in {UpAuth(M, "dlp"), UpAuth(M, op.prog)} /\ UpAuth(M, "dlp") # "none"
    [] op.op = "topup" -> TRUE
    [] op.op = "delesc" -> LET k == EscKey(op.u, op.idx) IN ~Delegated(M, k) /\ Lam(M, k) # Zero
    [] op.op = "closeesc" -> ~Delegated(M, EscKey(op.u, op.idx))
    [] OTHER -> FALSE
Complete(M, tx, ok) ==
  LET op == tx.ops[1]
      p == IF op.op \in {"pdel", "commit", "commitb", "finalize", "undelegate"} THEN "C26" ELSE "C27"
  IN IF On(p) /\ Docs(M, op, tx.cb) /\ ~ok THEN {p \o ":documented-but-refused-" \o op.op} ELSE {}

(* unsolicited deposits *)
Deposited(M, k) == Put(M, k, [Acc(M, k) EXCEPT !.l = Add(@, IF Lam(M, k) = Zero THEN Rent(0) ELSE One)])
EqD(x, y) == IF x.t = "rec" /\ y.t = "rec" THEN [x EXCEPT !.lam = Zero] = [y EXCEPT !.lam = Zero] ELSE x = y
Deposits(M, tx, res) ==
  IF ~On("C29") \/ ~res.ok \/ tx.ops[1].op = "xfer" THEN {}
  ELSE UNION {LET q == ExecTx(Deposited(M, k), tx, Slot0) IN
        IF ~q.ok THEN {"C29:deposit-blocks"}
        ELSE IF \E y \in DOMAIN res.L \cup DOMAIN q.L : y # k /\ (Own(res.L, y) # Own(q.L, y) \/ ~EqD(Dat(res.L, y), Dat(q.L, y))) THEN {"C29:deposit-changes-effect"}
        ELSE IF ~EqD(Dat(res.L, k), Dat(q.L, k)) \/ Own(res.L, k) # Own(q.L, k) THEN {"C29:deposit-changes-account"}
        ELSE IF \E y \in DOMAIN res.L : Lt(Lam(q.L, y), Lam(res.L, y)) THEN {"C29:deposit-costs-somebody"} ELSE {}
        : k \in {y \in TxKeys(tx) \ (ReadOnlyAlways \cup Wallets) : TRUE}}

(* from a buffer or directly *)
Buffered(M, tx, res) ==
  IF ~On("C33") \/ tx.ops[1].op # "commit" THEN {}
  ELSE LET op == tx.ops[1]
           B == Put(M, "SB1", [l |-> Rent(DLen(op.d)), o |-> "PROG", d |-> op.d])
           op2 == [op |-> "commitb", v |-> op.v, x |-> op.x, own |-> op.own, buf |-> "SB1", slot |-> op.slot, lam |-> op.lam, und |-> op.und]
           q == ExecTx(B, T1(tx.fp, op2), Slot0)
       IN IF q.ok # res.ok THEN {"C33:accepted-differently"}
          ELSE IF q.ok /\ q.L # Put(res.L, "SB1", Acc(B, "SB1")) THEN {"C33:staged-differently"} ELSE {}

(* malformed variants of an accepted call *)
Malformed(c) ==
  IF ~On("C31") \/ ~c.ok THEN {}
  ELSE LET e == c.e  n == Len(e.a) IN
       UNION {V(~Step(c.L, [e EXCEPT !.a[i].s = FALSE]).ok \/ IsS([e EXCEPT !.a[i].s = FALSE], e.a[i].k), "C31:without-signature") : i \in NeedSigs[e.n]}
       \cup UNION {LET f == [e EXCEPT !.a = [j \in 1..n |-> IF e.a[j].k = e.a[i].k THEN [e.a[j] EXCEPT !.w = FALSE] ELSE e.a[j]]]
                       q == Step(c.L, f) IN V(~q.ok \/ Same(c.L, q.L, e.a[i].k), "C31:wrote-without-permission") : i \in 1..n}
       \cup V(~Step(c.L, [e EXCEPT !.a = SubSeq(@, 1, n - 1)]).ok /\ ~Step(c.L, [e EXCEPT !.a = Append(@, e.a[1])]).ok, "C31:number-of-accounts")
       \cup V(~Step(c.L, [e EXCEPT !.args.ok = FALSE]).ok \/ "ok" = "" \/ e.n \in {"finalize", "undelegate", "initfv", "initvv", "closevv", "pclaim"}, "C31:undecodable")
(* the call with one account replaced: judged like any other call *)
Subst(M) == {k \in DOMAIN M : k \notin {"LOADER"}} \cup {"sys", "dlp", "PROG", "PROG2", "rec/A2", "cs/A2", "cr/A2", "meta/A2", "cfg/PROG2"}
Attacks(c) ==
  IF Wide < 2 \/ ~c.ok THEN {}
  ELSE UNION {LET f == [c.e EXCEPT !.a[i].k = k]  q == Step(c.L, f)
              IN IF q.ok THEN UNION {{p \o ":" \o s \o "-attack" : s \in Judge(p, f, c.L, q.L)} : p \in Sel} ELSE {}
              : i \in 1..Len(c.e.a), k \in Subst(c.L)}

(* bringing it home: a finalization if needed, a permitting commit if needed, undelegation *)
Home(M, x) ==
  LET r == R(M, x)  m == Mt(M, x)
      fund(K) == Put(K, x, [Acc(K, x) EXCEPT !.l = Add(Max(@, Rent(DLen(Dat(K, x)))), Rent(10))])
      vault(K, v) == IF IsDlp(K, "vv/" \o v) THEN K ELSE Put(K, "vv/" \o v, Vault(Zero))
      list(K) == IF \E v \in {"V1", "V2"} : Listed(K, r.own, v) THEN K      \* an authority approves somebody
                 ELSE SetDat(K, "cfg/" \o r.own, [t |-> "cfg", v |-> <<"V1">>])
      fin(K) == IF ~Pending(K, x) THEN Good(K)
                ELSE LET v == CrD(K, x).id IN ExecTx(vault(fund(K), v), T1(v, [op |-> "finalize", v |-> v, x |-> x]), Slot0)
      v2 == IF Listed(list(M), r.own, "V1") THEN "V1" ELSE "V2"
      com(K) == IF Mt(K, x).und THEN Good(K)
                ELSE LET q == ExecTx(vault(fund(K), v2), T1(v2, [op |-> "commit", v |-> v2, x |-> x, own |-> r.own, slot |-> Mt(K, x).last,
                                          lam |-> R(K, x).lam, und |-> TRUE, d |-> IF x \in PdaNames /\ PdaProg(x) = r.own THEN Dat(K, x) ELSE Empty]), Slot0)
                     IN IF q.ok THEN ExecTx(q.L, T1(v2, [op |-> "finalize", v |-> v2, x |-> x]), Slot0) ELSE Bad
      und(K) == ExecTx(vault(fund(K), v2), T1(v2, [op |-> "undelegate", v |-> v2, x |-> x, own |-> r.own, rp |-> Mt(K, x).payer]), Slot0)
      q == Then(Then(fin(list(M)), com), und)
  IN q.ok /\ ~Delegated(q.L, x) /\ Own(q.L, x) = r.own

(* every record of the program is what its address says *)
TypeOk(M) == \A k \in DOMAIN M : IsDlp(M, k) =>
  CASE k \in DOMAIN RecOf -> M[k].d.t = "rec" [] k \in DOMAIN MetaOf -> M[k].d.t = "meta" [] k \in DOMAIN CrOf -> M[k].d.t = "cr"
    [] k \in DOMAIN CfgOf -> M[k].d.t = "cfg" [] k = "fv" \/ k \in DOMAIN VvOf -> M[k].d = RawZ(8)
    [] k \in DOMAIN CsOf \/ k \in Deleg -> M[k].d.t = "raw" [] OTHER -> FALSE

Subjects == Deleg
SettledToZero(c) == c.ok /\ c.e.n = "finalize" /\ Pending(c.L, X(c.e)) /\ Lam(c.M, X(c.e)) = Zero
JudgeState(M, T2) ==
  UNION {{p \o ":" \o s : s \in Inv(p, M, T2, Subjects)} : p \in Sel}
  \cup (IF On("C28") /\ \E x \in Deleg : Delegated(M, x) /\ IsDlp(M, x) /\ x \notin T2 /\ ~Adrift(M, x) /\ ~Home(M, x) THEN {"C28:cannot-be-brought-home"} ELSE {})
  \cup (IF On("C32") /\ ~TypeOk(M) THEN {"C32:format"} ELSE {})
JudgeTx(M, tx, res, T2) ==
  (IF res.ok THEN UNION {UNION {{p \o ":" \o s : s \in Judge(p, c.e, c.L, c.M)} : p \in Sel} \cup Malformed(c) \cup Attacks(c)
                         : c \in {res.ev[q] : q \in 1..Len(res.ev)}}
                  \cup JudgeState(res.L, T2)
   ELSE IF On("C25") /\ res.L # M THEN {"C25:failed-call-left-trace"} ELSE {})
  \cup Complete(M, tx, res.ok) \cup Deposits(M, tx, res) \cup Buffered(M, tx, res)

Init == /\ L \in Init0 /\ T = {} /\ bad = {} /\ id = ""
        /\ path = << [k |-> "init", slot |-> Slot0, acc |-> L] >>
Rcd(tx, tag) == [k |-> "tx", fp |-> tx.fp, ops |-> tx.ops, cb |-> tx.cb, h |-> TRUE, tag |-> tag]
Next ==
  \/ /\ Len(path) <= Depth
     /\ \E tx \in Alphabet(L) :
          LET res == ExecTx(L, tx, Slot0)
              calls == {res.ev[q] : q \in 1..Len(res.ev)}
              T2 == T \cup {X(c.e) : c \in {d \in calls : SettledToZero(d)}}
          IN /\ bad' = JudgeTx(L, tx, res, T2)
             /\ (res.ok \/ bad' # {})
             /\ L' = res.L /\ T' = T2
             /\ path' = Append(path, Rcd(tx, "mc")) /\ id' = id \o "."
  \/ /\ Len(path) <= Depth
     /\ \E m \in Envs(L) : /\ L' = PutAll(L, m) /\ L' # L
                           /\ path' = Append(path, [k |-> "env", acc |-> m])
                           /\ bad' = {} /\ UNCHANGED <<T, id>>
Spec == Init /\ [][Next]_vars

Holds == bad = {}
(* writes the behaviour of this state *)
RECURSIVE Trials(_, _)
Trials(ts, acc) == IF ts = <<>> THEN acc ELSE Trials(Tail(ts), acc \o << [k |-> "push"], Rcd(Head(ts), "edge"), [k |-> "pop"] >>)
Emit == IF EmitDir = "" THEN TRUE
        ELSE JsonSerialize(EmitDir \o "/m" \o ToString(TLCGet("generated")) \o "-" \o ToString(TLCFP(L)) \o "-" \o ToString(TLCFP(path)) \o ".json", path \o Trials(SeqOf(Alphabet(L)), <<>>))
=============================================================================
