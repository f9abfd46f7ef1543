------------------------------- MODULE Calls -------------------------------
(* Operations of users: how the client library turns an operation into a    *)
(* call, how an owner program delegates one of its accounts, and what a      *)
(* transaction made of several of them does to the ledger.                   *)
EXTENDS Dlp

(* a wallet that is a program address, such as that of a multisig program: it signs *)
(* through calls of that program, never for a whole transaction                    *)
Multi == "M1"
Wallets == OnCurve \cup {Multi}
ReadOnlyAlways == {"sys", "dlp", "PROG", "PROG2", "PROXY", "LOADER", "NOOP"}

LOCAL RS(k) == [k |-> k, s |-> TRUE, w |-> FALSE]
LOCAL WS(k) == [k |-> k, s |-> TRUE, w |-> TRUE]
LOCAL RO(k) == [k |-> k, s |-> FALSE, w |-> FALSE]
LOCAL WR(k) == [k |-> k, s |-> FALSE, w |-> TRUE]

(* account lists *)
CallAccounts(op) ==
  CASE op.op = "delegate" ->
         << WS(op.p), WS(op.x), RO(op.own), WR("buf/" \o op.x \o "/" \o op.own), WR("rec/" \o op.x),
            WR("meta/" \o op.x), RO("sys") >>
    [] op.op = "commit" ->
         << RS(op.v), RO(op.x), WR("cs/" \o op.x), WR("cr/" \o op.x), RO("rec/" \o op.x), WR("meta/" \o op.x),
            RO("vv/" \o op.v), RO("cfg/" \o op.own), RO("sys") >>
    [] op.op = "commitb" ->
         << RS(op.v), RO(op.x), WR("cs/" \o op.x), WR("cr/" \o op.x), RO("rec/" \o op.x), WR("meta/" \o op.x),
            RO(op.buf), RO("vv/" \o op.v), RO("cfg/" \o op.own), RO("sys") >>
    [] op.op = "finalize" ->
         << RS(op.v), WR(op.x), WR("cs/" \o op.x), WR("cr/" \o op.x), WR("rec/" \o op.x), WR("meta/" \o op.x),
            WR("vv/" \o op.v), RO("sys") >>
    [] op.op = "undelegate" ->
         << WS(op.v), WR(op.x), RO(op.own), WR("ubuf/" \o op.x), RO("cs/" \o op.x), RO("cr/" \o op.x),
            WR("rec/" \o op.x), WR("meta/" \o op.x), WR(op.rp), WR("fv"), WR("vv/" \o op.v), RO("sys") >>
    [] op.op = "initfv" -> << WS(op.p), WR("fv"), RO("sys") >>
    [] op.op = "initvv" -> << WS(op.p), WS(op.adm), RO("pd/dlp"), WR(op.v), WR("vv/" \o op.v), RO("sys") >>
    [] op.op = "closevv" -> << WS(op.p), WS(op.adm), RO("pd/dlp"), WR(op.v), WR("vv/" \o op.v) >>
    [] op.op = "vclaim" -> << WS(op.v), WR("fv"), WR("vv/" \o op.v) >>
    [] op.op = "pclaim" -> << WS(op.adm), WR("fv"), RO("pd/dlp") >>
    [] op.op = "wl" -> << WS(op.auth), RO(op.v), RO(op.prog), RO("pd/" \o op.prog), RO("pd/dlp"),
                          WR("cfg/" \o op.prog), RO("sys") >>
    [] op.op = "topup" -> << WS(op.p), RO(op.u), WR(EscKey(op.u, op.idx)), RO("sys") >>
    [] op.op = "delesc" ->
         LET x == EscKey(op.u, op.idx)
         IN << WS(op.p), RS(op.u), WR(x), WR("buf/" \o x \o "/sys"), WR("rec/" \o x), WR("meta/" \o x),
               RO("sys"), RO("dlp") >>
    [] op.op = "closeesc" -> << WS(op.u), WR(EscKey(op.u, op.idx)), RO("sys") >>
    (* not calls of the program itself *)
    [] op.op = "xfer" -> << WS(op.from), WR(op.to) >>
    [] op.op = "assign" -> << WS(op.x) >>
    [] op.op = "pdel" ->
         << WS(op.p), [k |-> op.x, s |-> op.x \in OnCurve, w |-> TRUE], RO(op.prog),
            WR("buf/" \o op.x \o "/" \o op.prog), WR("buf/" \o op.x \o "/" \o op.own),
            WR("rec/" \o op.x), WR("meta/" \o op.x), RO("dlp"), RO("sys"), RO(op.own) >>

CallArgs(op) ==
  CASE op.op = "delegate" -> [ok |-> TRUE, freq |-> op.freq, seeds |-> op.seeds, val |-> op.val]
    [] op.op = "commit" -> [ok |-> TRUE, slot |-> op.slot, lam |-> op.lam, und |-> op.und, d |-> op.d]
    [] op.op = "commitb" -> [ok |-> TRUE, slot |-> op.slot, lam |-> op.lam, und |-> op.und]
    [] op.op = "vclaim" -> [ok |-> TRUE, some |-> op.some, amt |-> IF op.some THEN op.amt ELSE Zero]
    [] op.op = "wl" -> [ok |-> TRUE, ins |-> op.ins]
    [] op.op = "topup" -> [ok |-> TRUE, amt |-> op.amt, idx |-> op.idx]
    [] op.op = "delesc" -> [ok |-> TRUE, freq |-> op.freq, seeds |-> op.seeds, val |-> op.val, idx |-> op.idx]
    [] op.op = "closeesc" -> [ok |-> TRUE, idx |-> op.idx]
    [] OTHER -> [ok |-> TRUE]

DeriveFor(seeds, own) == Derive(seeds, IF own = "sys" THEN "dlp" ELSE own)

(* privileges are those of the whole transaction *)
Flags(al, S, W) == [i \in 1..Len(al) |->
                      [k |-> al[i].k, s |-> al[i].k \in S, w |-> al[i].k \in W /\ al[i].k \notin ReadOnlyAlways]]
RECURSIVE UnionAll(_)
UnionAll(q) == IF q = <<>> THEN {} ELSE Head(q) \cup UnionAll(Tail(q))
SignersOf(al) == {al[i].k : i \in {j \in 1..Len(al) : al[j].s}}
WritesOf(al) == {al[i].k : i \in {j \in 1..Len(al) : al[j].w}}
TxSigners(tx) == UnionAll([i \in 1..Len(tx.ops) |-> SignersOf(CallAccounts(tx.ops[i]))]) \cup {tx.fp}
TxWrites(tx) == (UnionAll([i \in 1..Len(tx.ops) |-> WritesOf(CallAccounts(tx.ops[i]))]) \cup {tx.fp}) \ ReadOnlyAlways
TxKeys(tx) == UnionAll([i \in 1..Len(tx.ops) |-> {CallAccounts(tx.ops[i])[j].k : j \in 1..Len(CallAccounts(tx.ops[i]))}])

MkEvent(op, al, slot, cb) ==
  [n |-> op.op, a |-> al, args |-> CallArgs(op), slot |-> slot, cb |-> cb,
   dv |-> IF op.op = "delegate" THEN DeriveFor(op.seeds, op.own) ELSE "!"]

(* --- the scripted delegation of an owner program --- *)
PDel(L, op, S, W, slot, cb) ==
  LET x == op.x  me == op.prog  buf == "buf/" \o x \o "/" \o me
      d == Dat(L, x)  n == DLen(d)
      usebuf == n > 0 /\ op.mode # "nobuf"
      m == CASE op.mode = "sbuf" -> n - 1 [] op.mode = "lbuf" -> n + 1 [] OTHER -> n
      keys == [a |-> Flags(CallAccounts(op), S, W)]
      copied == IF m = n THEN d ELSE [t |-> "raw", n |-> m, x |-> IF m = 0 THEN "" ELSE "~"]
      open == IF ~usebuf THEN Good(L)
              ELSE LET r == CreatePda(L, keys, buf, me, m, op.p)
                   IN Then(r, LAMBDA M : Good(SetDat(M, buf, copied)))
      hand(M) == IF Own(M, x) = me /\ op.mode # "noassign"
                 THEN Good(Put(M, x, [l |-> Lam(M, x), o |-> "dlp", d |-> RawZ(n)]))
                 ELSE Good(M)
      mine == x \notin OnCurve /\ x \in PdaNames /\ PdaProg(x) = me
      inner == [op |-> "delegate", p |-> op.p, x |-> x, own |-> op.own, freq |-> op.freq,
                seeds |-> op.seeds, val |-> op.val]
      al == CallAccounts(inner)
      signs(k) == k \in S \/ (k = x /\ mine)
      callOk == \A i \in 1..Len(al) :
                   /\ al[i].s /\ ~(al[i].k = x /\ op.mode = "nosign") => signs(al[i].k)
                   /\ al[i].w => al[i].k \in W
      al2 == [i \in 1..Len(al) |-> IF al[i].k = x /\ op.mode = "nosign" THEN [al[i] EXCEPT !.s = FALSE] ELSE al[i]]
      e == MkEvent(inner, al2, slot, cb)
      fin(M) == IF ~usebuf THEN M ELSE Put(Move(M, buf, op.p, Lam(M, buf)), buf, NoAcc)
      r1 == Then(open, hand)
  IN IF ~r1.ok \/ ~callOk THEN [ok |-> FALSE, L |-> <<>>, ev |-> <<>>]
     ELSE LET r2 == Step(r1.L, e)
          IN IF ~r2.ok THEN [ok |-> FALSE, L |-> <<>>, ev |-> << [e |-> e, L |-> r1.L, ok |-> FALSE, M |-> <<>>] >>]
             ELSE [ok |-> TRUE, L |-> fin(r2.L), ev |-> << [e |-> e, L |-> r1.L, ok |-> TRUE, M |-> r2.L] >>]

(* one operation inside a transaction with signers S and writable accounts W; called  *)
(* directly or through another program (op.via), which makes no difference            *)
ExecOp(L, op, S0, W, slot, cb) ==
  LET S == (S0 \ {Multi}) \cup (SignersOf(CallAccounts(op)) \cap {Multi}) IN
  CASE op.op = "xfer" ->
         LET r == IF NoData(L, op.from) /\ Own(L, op.from) = "sys" /\ Le(op.amt, Lam(L, op.from))
                  THEN Good(Move(L, op.from, op.to, op.amt)) ELSE Bad
         IN [ok |-> r.ok, L |-> r.L, ev |-> <<>>]
    [] op.op = "assign" ->
         LET ok == Own(L, op.x) = "sys" \/ Own(L, op.x) = op.to
         IN [ok |-> ok, L |-> IF ok THEN SetOwn(L, op.x, op.to) ELSE <<>>, ev |-> <<>>]
    [] op.op = "pdel" -> PDel(L, op, S, W, slot, cb)
    [] OTHER ->
         LET e == MkEvent(op, Flags(CallAccounts(op), S, W), slot, cb)
             r == Step(L, e)
         IN [ok |-> r.ok, L |-> r.L, ev |-> << [e |-> e, L |-> L, ok |-> r.ok, M |-> r.L] >>]

RECURSIVE ExecOps(_, _, _, _, _, _)
ExecOps(st, ops, S, W, slot, cb) ==
  IF ops = <<>> \/ ~st.ok THEN st
  ELSE LET r == ExecOp(st.L, Head(ops), S, W, slot, cb)
       IN ExecOps([ok |-> r.ok, L |-> r.L, ev |-> st.ev \o r.ev, n |-> st.n + 1], Tail(ops), S, W, slot, cb)

(* [ok, L (ledger afterwards), ev (calls made), n (operations attempted), rent] *)
ExecTx(L, tx, slot) ==
  LET S == TxSigners(tx)  W == TxWrites(tx)
      st == ExecOps([ok |-> TRUE, L |-> L, ev |-> <<>>, n |-> 0], tx.ops, S, W, slot, tx.cb)
      (* a fee payer must exist, be an ordinary wallet *)
      payer == tx.fp \in OnCurve /\ tx.fp \in DOMAIN L /\ Own(L, tx.fp) = "sys" /\ NoData(L, tx.fp)
      rent == st.ok => RentOk(L, st.L, W)
  IN IF st.ok /\ rent /\ payer THEN [ok |-> TRUE, L |-> Sweep(st.L), ev |-> st.ev, n |-> st.n, rent |-> TRUE]
     ELSE [ok |-> FALSE, L |-> L, ev |-> st.ev, n |-> st.n, rent |-> rent]
=============================================================================
