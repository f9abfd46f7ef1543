------------------------------- MODULE Props -------------------------------
(* The listed properties, stated on one call of the program: e is the call,  *)
(* L the ledger it started from, M the ledger it left.  They judge what was  *)
(* observed (or what the specification does, in the exhaustive models); they *)
(* do not refer to the transition function Step of the specification, except *)
(* that a refusal expected from a malformed call is Step's refusal.          *)
(* Each operator Pnn returns the set of names of violated clauses.           *)
EXTENDS Calls

V(cond, name) == IF cond THEN {} ELSE {name}
Imp(a, S) == IF a THEN S ELSE {}

(* ------------------------------ name tables ------------------------------ *)
Deleg == PdaNames \cup {"W1", "W2"}
EscIdx == {0, 1, 3, 7, 9, 128, 254, 255}
EscOf == LET P == {p \in Wallets \X EscIdx : EscKey(p[1], p[2]) \in PdaNames}
         IN [k \in {EscKey(p[1], p[2]) : p \in P} |-> CHOOSE p \in P : EscKey(p[1], p[2]) = k]
Escrows == DOMAIN EscOf
Holder(k) == EscOf[k][1]
LOCAL Tab(pre, S) == [k \in {pre \o y : y \in S} |-> CHOOSE y \in S : pre \o y = k]
RecOf == Tab("rec/", Deleg)    MetaOf == Tab("meta/", Deleg)
CsOf == Tab("cs/", Deleg)      CrOf == Tab("cr/", Deleg)
UbOf == Tab("ubuf/", Deleg)    VvOf == Tab("vv/", Wallets)
CfgOf == Tab("cfg/", {"PROG", "PROG2", "sys", "dlp"})

Delegated(L, x) == IsDlp(L, "rec/" \o x)
Pending(L, x) == IsDlp(L, "cs/" \o x) \/ IsDlp(L, "cr/" \o x)
RecD(L, x) == Dat(L, "rec/" \o x)
MetaD(L, x) == Dat(L, "meta/" \o x)
CrD(L, x) == Dat(L, "cr/" \o x)
Same(L, M, k) == Acc(L, k) = Acc(M, k)
Changed(L, M, e) == {k \in Keys(e) : Acc(L, k) # Acc(M, k)}
Rises(L, M, k, d) == Lam(M, k) = Add(Lam(L, k), d)
Falls(L, M, k, d) == Add(Lam(M, k), d) = Lam(L, k)
RECURSIVE SumLam(_, _)
SumLam(L, S) == IF S = {} THEN Zero ELSE LET k == CHOOSE y \in S : TRUE IN Add(Lam(L, k), SumLam(L, S \ {k}))

(* ----------------------------- call structure ----------------------------- *)
NAccs == [delegate |-> 7, commit |-> 9, commitb |-> 10, finalize |-> 8, undelegate |-> 12, initfv |-> 3,
          initvv |-> 6, closevv |-> 5, vclaim |-> 3, pclaim |-> 3, wl |-> 7, topup |-> 4, delesc |-> 8,
          closeesc |-> 3]
Known(e) == e.n \in DOMAIN NAccs
Shaped(e) == Known(e) /\ Len(e.a) = NAccs[e.n] /\ e.args.ok
IsCommit(e) == e.n \in {"commit", "commitb"}
IsDel(e) == e.n \in {"delegate", "delesc"}
(* the account, validator, program a call is about *)
X(e) == CASE e.n = "delesc" -> A(e, 3) [] OTHER -> A(e, 2)
MetaReadable(L, x) == MetaD(L, x).t = "meta"
RecReadable(L, x) == RecD(L, x).t = "rec"
Outdated(L, e) == IsCommit(e) /\ MetaReadable(L, X(e)) /\ Lt(e.args.slot, MetaD(L, X(e)).last)
Staged(L, M, e) == IsCommit(e) /\ ~IsDlp(L, "cr/" \o X(e)) /\ IsDlp(M, "cr/" \o X(e))
Consumed(L, M, x) == Pending(L, x) /\ ~Pending(M, x)
SubmittedData(L, e) == IF e.n = "commit" THEN e.args.d ELSE Dat(L, A(e, 7))
Authority(e, adm) == adm # "none" /\ IsS(e, adm)

(* the genuine account at each position; "" where any account may stand *)
Genuine(L, e) ==
  CASE e.n = "delegate" -> LET x == A(e,2) IN <<"", "", "", "buf/" \o x \o "/" \o A(e,3), "rec/" \o x, "meta/" \o x, "sys">>
    [] e.n = "commit" -> LET x == A(e,2) IN
         <<"", "", "cs/" \o x, "cr/" \o x, "rec/" \o x, "meta/" \o x, "vv/" \o A(e,1),
           IF RecReadable(L, x) THEN "cfg/" \o RecD(L, x).own ELSE "", "sys">>
    [] e.n = "commitb" -> LET x == A(e,2) IN
         <<"", "", "cs/" \o x, "cr/" \o x, "rec/" \o x, "meta/" \o x, "", "vv/" \o A(e,1),
           IF RecReadable(L, x) THEN "cfg/" \o RecD(L, x).own ELSE "", "sys">>
    [] e.n = "finalize" -> LET x == A(e,2) IN
         <<"", "", "cs/" \o x, "cr/" \o x, "rec/" \o x, "meta/" \o x, "vv/" \o A(e,1), "sys">>
    [] e.n = "undelegate" -> LET x == A(e,2) IN
         <<"", "", IF RecReadable(L, x) THEN RecD(L, x).own ELSE "", "ubuf/" \o x, "cs/" \o x, "cr/" \o x,
           "rec/" \o x, "meta/" \o x, IF MetaReadable(L, x) THEN MetaD(L, x).payer ELSE "", "fv", "vv/" \o A(e,1), "sys">>
    [] e.n = "initfv" -> <<"", "fv", "sys">>
    [] e.n = "initvv" -> <<"", "", "pd/dlp", "", "vv/" \o A(e,4), "sys">>
    [] e.n = "closevv" -> <<"", "", "pd/dlp", "", "vv/" \o A(e,4)>>
    [] e.n = "vclaim" -> <<"", "fv", "vv/" \o A(e,1)>>
    [] e.n = "pclaim" -> <<"", "fv", "pd/dlp">>
    [] e.n = "wl" -> <<"", "", "", "", "pd/dlp", "cfg/" \o A(e,3), "sys">>
    [] e.n = "topup" -> <<"", "", EscKey(A(e,2), e.args.idx), "sys">>
    [] e.n = "delesc" -> LET x == EscKey(A(e,2), e.args.idx) IN
         <<"", "", x, "buf/" \o x \o "/sys", "rec/" \o x, "meta/" \o x, "sys", "dlp">>
    [] e.n = "closeesc" -> <<"", EscKey(A(e,1), e.args.idx), "">>
IsGenuine(L, e) == LET g == Genuine(L, e) IN \A i \in 1..Len(g) : g[i] = "" \/ A(e, i) = g[i]

(* positions that must have signed, positions the call writes to *)
NeedSigs == [delegate |-> {1,2}, commit |-> {1}, commitb |-> {1}, finalize |-> {1}, undelegate |-> {1},
             initfv |-> {1}, initvv |-> {1,2}, closevv |-> {1,2}, vclaim |-> {1}, pclaim |-> {1}, wl |-> {1},
             topup |-> {1}, delesc |-> {1,2}, closeesc |-> {1}]
(* a payer with nothing to pay need not be writable: the program does not say so either *)
NeedWrites == [delegate |-> {2,4,5,6}, commit |-> {3,4,6}, commitb |-> {3,4,6}, finalize |-> 2..7,
               undelegate |-> {2,4,7,8,9,10,11}, initfv |-> {2}, initvv |-> {5}, closevv |-> {5},
               vclaim |-> {2,3}, pclaim |-> {2}, wl |-> {6}, topup |-> {3}, delesc |-> {3,4,5,6},
               closeesc |-> {2}]

(* what a call about these accounts may change, and whose balance may rise *)
Frame(e) ==
  CASE e.n = "delegate" -> LET x == A(e,2) IN {A(e,1), x, "rec/" \o x, "meta/" \o x}
    [] IsCommit(e) -> LET x == A(e,2) IN {A(e,1), "cs/" \o x, "cr/" \o x, "meta/" \o x}
    [] e.n = "finalize" -> LET x == A(e,2) IN
         {A(e,1), x, "cs/" \o x, "cr/" \o x, "rec/" \o x, "meta/" \o x, "vv/" \o A(e,1)}
    [] e.n = "undelegate" -> LET x == A(e,2) IN
         {A(e,1), x, "ubuf/" \o x, "rec/" \o x, "meta/" \o x, A(e,9), "fv", "vv/" \o A(e,1)}
    [] e.n = "initfv" -> {A(e,1), "fv"}
    [] e.n = "initvv" -> {A(e,1), "vv/" \o A(e,4)}
    [] e.n = "closevv" -> {A(e,4), "vv/" \o A(e,4)}
    [] e.n = "vclaim" -> {A(e,1), "fv", "vv/" \o A(e,1)}
    [] e.n = "pclaim" -> {A(e,1), "fv"}
    [] e.n = "wl" -> {A(e,1), "cfg/" \o A(e,3)}
    [] e.n = "topup" -> {A(e,1), EscKey(A(e,2), e.args.idx)}
    [] e.n = "delesc" -> LET x == EscKey(A(e,2), e.args.idx) IN {A(e,1), x, "rec/" \o x, "meta/" \o x}
    [] e.n = "closeesc" -> {A(e,1), EscKey(A(e,1), e.args.idx)}
Gainers(e) ==
  CASE IsDel(e) -> {"rec/" \o X(e), "meta/" \o X(e)}
    [] IsCommit(e) -> {"cs/" \o X(e), "cr/" \o X(e)}
    [] e.n = "finalize" -> {A(e,1), A(e,2), "vv/" \o A(e,1)}
    [] e.n = "undelegate" -> {A(e,1), A(e,9), "fv", "vv/" \o A(e,1)}
    [] e.n = "initfv" -> {"fv"}
    [] e.n = "initvv" -> {"vv/" \o A(e,4)}
    [] e.n = "closevv" -> {A(e,4)}
    [] e.n = "vclaim" -> {A(e,1), "fv"}
    [] e.n = "pclaim" -> {A(e,1)}
    [] e.n = "wl" -> {"cfg/" \o A(e,3)}
    [] e.n = "topup" -> {EscKey(A(e,2), e.args.idx)}
    [] e.n = "closeesc" -> {A(e,1)}

(* ------------------------------- sessions ------------------------------- *)
NewDelegations(L, M) == {x \in Deleg : \/ ~IsDlp(L, "rec/" \o x) /\ IsDlp(M, "rec/" \o x)
                                       \/ ~IsDlp(L, "meta/" \o x) /\ IsDlp(M, "meta/" \o x)}
P01(e, L, M) == UNION {
  IF ~(IsDel(e) /\ Shaped(e)) THEN {"created-by-another-call"}
  ELSE V(x = X(e), "another-account")
       \cup V(IsS(e, A(e,1)), "payer-did-not-sign")
       \cup (IF e.n = "delegate"
             THEN V(IsS(e, x), "account-did-not-sign") \cup V(IsDlp(L, x), "not-in-custody")
                  \cup V(x \in OnCurve \/ e.dv = x, "seeds-do-not-derive-the-account")
             ELSE V(x = EscKey(A(e,2), e.args.idx), "not-the-holders-escrow")
                  \cup V(IsS(e, A(e,2)), "holder-did-not-sign"))
  : x \in NewDelegations(L, M) }

P02(e, L, M) == Imp(IsDel(e) /\ Shaped(e),
  LET x == X(e)
      own == IF e.n = "delegate" THEN A(e,3) ELSE "sys"
      seeds == IF e.n = "delegate" THEN e.args.seeds ELSE IF x \in PdaNames THEN SeedsOf(x) ELSE <<>>
      buf == "buf/" \o x \o "/" \o own
  IN V(RecD(M, x) = [t |-> "rec", auth |-> e.args.val, own |-> own, slot |-> e.slot, lam |-> Lam(L, x), freq |-> e.args.freq], "record")
     \cup V(MetaD(M, x) = [t |-> "meta", last |-> Zero, und |-> FALSE, seeds |-> seeds, payer |-> A(e,1)], "metadata")
     \cup V(IsDlp(M, "rec/" \o x) /\ IsDlp(M, "meta/" \o x), "not-stored")
     \cup V(Lam(M, x) = Lam(L, x), "balance")
     \cup V(Dat(M, x) = IF NoData(L, buf) THEN Dat(L, x) ELSE Dat(L, buf), "data")
     \cup V(~Pending(M, x), "commit-left-over"))

Immutable(L, M, x) ==
  LET r == RecD(L, x) s == RecD(M, x) m == MetaD(L, x) q == MetaD(M, x)
  IN /\ r.t = "rec" => s.t = "rec" /\ r.auth = s.auth /\ r.own = s.own /\ r.slot = s.slot /\ r.freq = s.freq
     /\ m.t = "meta" => q.t = "meta" /\ m.seeds = q.seeds /\ m.payer = q.payer
(* only the accounts of the call can have changed *)
Touched(e) == {RecOf[k] : k \in Keys(e) \cap DOMAIN RecOf} \cup {MetaOf[k] : k \in Keys(e) \cap DOMAIN MetaOf}
              \cup {CsOf[k] : k \in Keys(e) \cap DOMAIN CsOf} \cup {CrOf[k] : k \in Keys(e) \cap DOMAIN CrOf}
              \cup (Keys(e) \cap Deleg)
P03(e, L, M) == UNION {
  (IF Delegated(L, x) /\ ~Delegated(M, x)
   THEN V(e.n = "undelegate" /\ X(e) = x /\ ~IsDlp(M, "meta/" \o x) /\ (IsDlp(M, x) => RecD(L, x).own = "dlp"), "record-removed")
   ELSE Imp(Delegated(L, x),
          V(IsDlp(M, "meta/" \o x), "metadata-removed") \cup V(Own(L, x) = "dlp" => IsDlp(M, x), "left-custody")
          \cup V(Immutable(L, M, x), "delegation-altered")))
  \cup V(IsDlp(L, "rec/" \o x) = IsDlp(L, "meta/" \o x) => IsDlp(M, "rec/" \o x) = IsDlp(M, "meta/" \o x), "record-without-metadata")
  \cup Imp(~Delegated(L, x) /\ Delegated(M, x), V(IsDel(e) /\ IsDlp(M, x), "record-without-delegation"))
  \cup Imp(Delegated(L, x) /\ IsDel(e) /\ X(e) = x, {"delegated-twice"})
  : x \in Touched(e) }

P04(e, L, M) == UNION {
  Imp(~Pending(L, x) /\ Pending(M, x),
    IF ~(IsCommit(e) /\ Shaped(e)) THEN {"staged-by-another-call"}
    ELSE V(X(e) = x, "another-account")
      \cup V(IsS(e, A(e,1)), "validator-did-not-sign")
      \cup V(IsDlp(L, "vv/" \o A(e,1)), "validator-not-admitted")
      \cup (IF ~RecReadable(L, x) THEN {"no-delegation"}
            ELSE LET cfg == "cfg/" \o RecD(L, x).own
                 IN V(Own(L, cfg) = "sys" \/ A(e,1) \in CfgSet(Dat(L, cfg)), "validator-not-approved")))
  : x \in Touched(e) }

P05(e, L, M) == Imp(IsCommit(e) /\ Shaped(e),
  IF Outdated(L, e) THEN {}
  ELSE LET x == X(e) IN
       V(Staged(L, M, e) /\ IsDlp(M, "cs/" \o x), "nothing-staged")
  \cup Imp(Staged(L, M, e),
         V(LET d == SubmittedData(L, e) IN IF d.t = "raw" THEN Dat(M, "cs/" \o x) = d ELSE DLen(Dat(M, "cs/" \o x)) = DLen(d), "data")
    \cup V(CrD(M, x) = [t |-> "cr", id |-> A(e,1), acc |-> x, slot |-> e.args.slot, lam |-> e.args.lam], "record"))
  \cup V(Same(L, M, x), "account-changed") \cup V(Same(L, M, "rec/" \o x), "delegation-record-changed")
  \cup V([Acc(L, "meta/" \o x) EXCEPT !.d = 0] = [Acc(M, "meta/" \o x) EXCEPT !.d = 0] /\
         (MetaReadable(L, x) => MetaReadable(M, x) /\ [MetaD(L, x) EXCEPT !.und = FALSE] = [MetaD(M, x) EXCEPT !.und = FALSE]), "metadata-changed")
  \cup V(Changed(L, M, e) \subseteq {A(e,1), "cs/" \o x, "cr/" \o x, "meta/" \o x}, "something-else-changed"))

P06(e, L, M) == UNION {
  V(IsDlp(L, "cs/" \o x) = IsDlp(L, "cr/" \o x) => IsDlp(M, "cs/" \o x) = IsDlp(M, "cr/" \o x), "half-staged")
  \cup Imp(Pending(L, x),
         V(\/ Same(L, M, "cs/" \o x) /\ Same(L, M, "cr/" \o x)
           \/ e.n = "finalize" /\ X(e) = x /\ ~Pending(M, x), "pending-commit-altered")
    \cup Imp(IsCommit(e) /\ Shaped(e) /\ X(e) = x, V(Outdated(L, e), "second-commit-accepted")))
  \cup Imp(~Pending(L, x) /\ Pending(M, x), V(IsCommit(e) /\ X(e) = x, "staged-without-commit"))
  : x \in Touched(e) }

P07(e, L, M) == UNION {
  Imp(MetaReadable(L, x) /\ MetaReadable(M, x) /\ Delegated(M, x),
    LET a == MetaD(L, x).last b == MetaD(M, x).last c == CrD(L, x) IN
         V(Le(a, b), "finalized-slot-decreased")
    \cup Imp(a # b, V(e.n = "finalize" /\ c.t = "cr" /\ b = c.slot, "finalized-slot-without-finalization"))
    \cup Imp(Consumed(L, M, x) /\ c.t = "cr", V(b = c.slot, "finalized-slot-wrong")))
  : x \in Touched(e) }
  \cup Imp(IsCommit(e) /\ Shaped(e) /\ MetaReadable(L, X(e)),
         IF Outdated(L, e) THEN V(Changed(L, M, e) = {}, "outdated-commit-had-effect")
         ELSE V(Staged(L, M, e), "current-commit-skipped"))

P08(e, L, M) == UNION {
  Imp(MetaReadable(L, x) /\ MetaReadable(M, x) /\ IsDlp(L, "meta/" \o x) /\ IsDlp(M, "meta/" \o x),
    LET a == MetaD(L, x).und b == MetaD(M, x).und IN
         V(a => b, "permission-withdrawn")
    \cup Imp(~a /\ b, V(IsCommit(e) /\ Shaped(e) /\ X(e) = x /\ Staged(L, M, e) /\ e.args.und, "permission-not-asked-for"))
    \cup Imp(IsCommit(e) /\ Shaped(e) /\ X(e) = x /\ ~Outdated(L, e),
             V(~a, "commit-after-permission") \cup V(e.args.und => b, "permission-not-granted")))
  : x \in Touched(e) }

P09(e, L, M) == Imp(IsCommit(e) /\ Shaped(e) /\ Staged(L, M, e) /\ RecReadable(L, X(e)),
  LET x == X(e)  cs == "cs/" \o x  cr == "cr/" \o x  v == A(e,1)
      need == Missing(RecD(L, x).lam, e.args.lam)
      n == DLen(Dat(M, cs))
      cs1 == Max(Add(Lam(L, cs), need), Rent(n))
      cr1 == Max(Lam(L, cr), Rent(88))
      cost == Add(Sub(cs1, Lam(L, cs)), Sub(cr1, Lam(L, cr)))
  IN V(Lam(M, cs) = cs1, "collateral") \cup V(Lam(M, cr) = cr1, "commit-record-balance")
     \cup V(Falls(L, M, v, cost), "validator-payment") \cup V(cost = Zero \/ IsS(e, v), "validator-did-not-sign"))

P10(e, L, M) == Imp(e.n = "finalize" /\ Shaped(e) /\ Pending(L, X(e)),
  LET x == X(e)  cs == "cs/" \o x  cr == "cr/" \o x  v == A(e,1)
      c == CrD(L, x)  r == RecD(L, x)
      up == IF c.t = "cr" /\ r.t = "rec" THEN Missing(r.lam, c.lam) ELSE Zero
  IN V(Dat(M, x) = Dat(L, cs), "data")
     \cup V(MetaReadable(M, x) /\ c.t = "cr" /\ MetaD(M, x).last = c.slot, "finalized-slot")
     \cup V(RecReadable(M, x) /\ RecD(M, x).lam = Lam(M, x), "recorded-balance")
     \cup V(Acc(M, cs) = NoAcc /\ Acc(M, cr) = NoAcc, "staging-accounts-left")
     \cup V(Add(Lam(M, v), up) = Add(Lam(L, v), Add(Lam(L, cs), Lam(L, cr))), "refund"))

P11(e, L, M) == UNION {
  Imp(Pending(L, x) /\ (Consumed(L, M, x) \/ Dat(L, x) # Dat(M, x) \/ Lt(Lam(M, x), Lam(L, x)) \/ Dat(L, "rec/" \o x) # Dat(M, "rec/" \o x)),
    IF ~(e.n = "finalize" /\ Shaped(e)) THEN {"consumed-by-another-call"}
    ELSE LET v == A(e,1)  c == CrD(L, x) IN
         V(X(e) = x, "another-account")
    \cup V(IsS(e, v), "committer-did-not-sign")
    \cup V(c.t = "cr" /\ c.id = v, "not-the-committer")
    \cup V(c.t = "cr" /\ c.acc = x, "not-the-committed-account")
    \cup V(IsDlp(L, "vv/" \o v), "committer-not-admitted"))
  : x \in Touched(e) }
  \cup Imp(e.n = "finalize" /\ Shaped(e) /\ Pending(L, X(e)),
         V(CrD(L, X(e)).t = "cr" /\ CrD(L, X(e)).id = A(e,1) /\ IsS(e, A(e,1)), "accepted-from-another"))

P12(e, L, M) == Imp(e.n = "finalize" /\ Shaped(e),
  LET x == X(e)  vv == "vv/" \o A(e,1)  c == CrD(L, x)  r == RecD(L, x)  ks == Keys(e)
  IN V(SumLam(L, ks) = SumLam(M, ks), "lamports-created-or-destroyed")
     \cup Imp(Pending(L, x) /\ c.t = "cr" /\ r.t = "rec",
            IF Lt(c.lam, r.lam)
            THEN V(Falls(L, M, x, Sub(r.lam, c.lam)), "debit-of-account") \cup V(Rises(L, M, vv, Sub(r.lam, c.lam)), "credit-of-vault")
            ELSE V(Rises(L, M, x, Sub(c.lam, r.lam)), "credit-of-account") \cup V(Lam(M, vv) = Lam(L, vv), "vault-touched"))
     \cup Imp(~Pending(L, x), V(\A k \in ks : Lam(L, k) = Lam(M, k), "moved-without-commit")))

P13(e, L, M) == Imp(e.n = "finalize" /\ Shaped(e) /\ ~Pending(L, X(e)), V(Changed(L, M, e) = {}, "had-effect"))

Leaves(L, M, x) == Delegated(L, x) /\ (~Delegated(M, x) \/ ~IsDlp(M, "meta/" \o x) \/ (IsDlp(L, x) /\ ~IsDlp(M, x)))
(* F3: data was committed for good (the permission is granted) to an account that no program *)
(* can re-open: one of the system program, or one that is not derived from its owner.        *)
Adrift(M, x) ==
  LET r == RecD(M, x)  len == IF Pending(M, x) THEN DLen(Dat(M, "cs/" \o x)) ELSE DLen(Dat(M, x)) IN
  len # 0 /\ MetaD(M, x).und /\ ~(x \in PdaNames /\ PdaProg(x) = r.own /\ r.own \in Programs)
P14(e, L, M) == UNION {
  Imp(Leaves(L, M, x) \/ (e.n = "undelegate" /\ Shaped(e) /\ X(e) = x),
    IF ~(e.n = "undelegate" /\ Shaped(e)) THEN {"undelegated-by-another-call"}
    ELSE V(X(e) = x, "another-account") \cup V(Delegated(L, x), "not-delegated")
    \cup V(MetaReadable(L, x) /\ MetaD(L, x).und, "not-permitted")
    \cup V(~Pending(L, x), "commit-pending")
    \cup V(IsS(e, A(e,1)), "validator-did-not-sign") \cup V(IsDlp(L, "vv/" \o A(e,1)), "validator-not-admitted")
    \cup V(RecReadable(L, x) /\ A(e,3) = RecD(L, x).own, "owner-program-wrong")
    \cup V(MetaReadable(L, x) /\ A(e,9) = MetaD(L, x).payer, "rent-payer-wrong")
    \cup V(IsDlp(L, "fv") /\ A(e,10) = "fv", "no-protocol-vault")
    \cup V(A(e,11) = "vv/" \o A(e,1), "validator-vault-wrong"))
  : x \in Touched(e) }

Hostile == {"fail", "nothing", "wrong", "wrong0", "short", "long", "over", "over2", "under"}
SplitFee(l) == Div10(l)
SplitProt(l) == Div10(Div10(l))
SplitRest(l) == Sub(l, Div10(l))
P15(e, L, M) == Imp(e.n = "undelegate" /\ Shaped(e) /\ RecReadable(L, X(e)),
  LET x == X(e)  v == A(e,1)  own == RecD(L, x).own
      called == ~NoData(L, x)
      stray == IF called THEN Lam(L, "ubuf/" \o x) ELSE Zero
      share == IF A(e,9) = v THEN Add(SplitRest(Lam(L, "rec/" \o x)), SplitRest(Lam(L, "meta/" \o x))) ELSE Zero
  IN V(Own(M, x) = IF called /\ e.cb = "other" THEN "PROG2" ELSE own, "owner")
     \cup V(Dat(M, x) = Dat(L, x), "data") \cup V(Lam(M, x) = Lam(L, x), "balance")
     \cup V(Lam(M, v) = Add(Lam(L, v), Add(stray, share)), "validator-balance")
     \cup V(~(called /\ e.cb \in Hostile), "hostile-callback-accepted"))

P16(e, L, M) == Imp(e.n = "undelegate" /\ Shaped(e),
  LET x == X(e)  v == A(e,1)  rp == A(e,9)  vv == "vv/" \o v
      a == Lam(L, "rec/" \o x)  b == Lam(L, "meta/" \o x)
      called == ~NoData(L, x)
      prot == Add(SplitProt(a), SplitProt(b))
      fee == Sub(Add(SplitFee(a), SplitFee(b)), prot)
      rest == Add(SplitRest(a), SplitRest(b))
  IN UNION {V(~IsDlp(M, pre \o x) /\ NoData(M, pre \o x), "artifact-left") : pre \in {"rec/", "meta/", "cs/", "cr/", "ubuf/"}}
     \cup V(Lam(M, "rec/" \o x) = Zero /\ Lam(M, "meta/" \o x) = Zero, "rent-left")
     \cup V(called => Lam(M, "ubuf/" \o x) = Zero, "buffer-rent-left")
     \cup V(Rises(L, M, "fv", prot), "protocol-share") \cup V(Rises(L, M, vv, fee), "validator-share")
     \cup Imp(rp # v, V(Rises(L, M, rp, rest), "payer-share"))
     \cup Imp(rp = v /\ ~called, V(Rises(L, M, rp, rest), "payer-share")))

(* ------------------------------ fees, admission ------------------------------ *)
P17(e, L, M) ==
  Imp(e.n = "vclaim" /\ Shaped(e),
    LET v == A(e,1)  vv == "vv/" \o v  free == Missing(Rent(8), Lam(L, vv))
        amt == IF e.args.some THEN e.args.amt ELSE free  fee == Div10(amt)
    IN V(IsS(e, v), "validator-did-not-sign") \cup V(IsDlp(L, vv), "vault-not-initialised")
       \cup V(Le(amt, free), "below-reserve")
       \cup V(Falls(L, M, vv, amt), "vault-debit") \cup V(Rises(L, M, "fv", fee), "protocol-share")
       \cup V(Rises(L, M, v, Sub(amt, fee)), "validator-share"))
  \cup UNION {
    Imp(Lt(Lam(M, k), Lam(L, k)),
      V(\/ e.n = "vclaim" /\ Shaped(e) /\ A(e,1) = VvOf[k] /\ IsS(e, A(e,1)) /\ Le(Rent(8), Lam(M, k))
        \/ e.n = "closevv" /\ Shaped(e) /\ A(e,4) = VvOf[k], "vault-drained"))
    : k \in Keys(e) \cap DOMAIN VvOf }

P18(e, L, M) ==
  Imp(e.n = "pclaim" /\ Shaped(e),
       V(Authority(e, UpAuth(L, "dlp")) /\ A(e,1) = UpAuth(L, "dlp"), "not-the-authority")
    \cup V(IsDlp(L, "fv"), "no-vault")
    \cup V(Le(Rent(8), Lam(M, "fv")), "below-reserve")
    \cup V(Falls(L, M, "fv", Missing(Rent(8), Lam(L, "fv"))), "amount")
    \cup V(Rises(L, M, A(e,1), Missing(Rent(8), Lam(L, "fv"))), "credit"))
  \cup Imp("fv" \in Keys(e) /\ Lt(Lam(M, "fv"), Lam(L, "fv")), V(e.n = "pclaim", "vault-drained"))

P19(e, L, M) ==
  LET adm == UpAuth(L, "dlp") IN
  UNION {
    LET w == VvOf[k] IN
       Imp(~IsDlp(L, k) /\ IsDlp(M, k),
         IF ~(e.n = "initvv" /\ Shaped(e)) THEN {"vault-created-by-another-call"}
         ELSE V(A(e,4) = w, "another-validator") \cup V(Authority(e, adm), "not-the-authority")
              \cup V(Dat(M, k) = RawZ(8), "not-empty") \cup V(Lam(M, k) = Max(Lam(L, k), Rent(8)), "balance"))
    \cup Imp(IsDlp(L, k) /\ ~IsDlp(M, k),
         IF ~(e.n = "closevv" /\ Shaped(e)) THEN {"vault-closed-by-another-call"}
         ELSE V(A(e,4) = w, "another-validator") \cup V(Authority(e, adm), "not-the-authority")
              \cup V(Rises(L, M, w, Lam(L, k)), "not-paid-to-validator") \cup V(Acc(M, k) = NoAcc, "not-closed"))
    : k \in Keys(e) \cap DOMAIN VvOf }
  \cup Imp(e.n = "initvv" /\ Shaped(e), V(~IsDlp(L, "vv/" \o A(e,4)), "created-twice")
                                   \cup V(IsDlp(M, "vv/" \o A(e,4)), "not-created")
                                   \cup V(Authority(e, adm) /\ A(e,2) = adm, "not-the-authority"))
  \cup Imp(e.n = "closevv" /\ Shaped(e), V(IsDlp(L, "vv/" \o A(e,4)), "nothing-to-close")
                                    \cup V(~IsDlp(M, "vv/" \o A(e,4)), "still-admitted")
                                    \cup V(Authority(e, adm) /\ A(e,2) = adm, "not-the-authority"))
  \cup Imp(e.n = "initfv" /\ Shaped(e), V(~IsDlp(L, "fv"), "protocol-vault-recreated") \cup V(IsDlp(M, "fv"), "not-created")
                                   \cup V(Dat(M, "fv") = RawZ(8), "not-empty")
                                   \cup V(Lam(M, "fv") = Max(Lam(L, "fv"), Rent(8)), "balance"))
  \cup Imp("fv" \in Keys(e),
         V(IsDlp(L, "fv") => IsDlp(M, "fv") /\ Dat(L, "fv") = Dat(M, "fv"), "protocol-vault-closed")
    \cup V(~IsDlp(L, "fv") /\ IsDlp(M, "fv") => e.n = "initfv", "protocol-vault-created-by-another-call"))

P20(e, L, M) ==
  UNION {
    Imp(Own(L, k) # Own(M, k) \/ Dat(L, k) # Dat(M, k),
      IF ~(e.n = "wl" /\ Shaped(e)) THEN {"changed-by-another-call"}
      ELSE V(A(e,3) = CfgOf[k], "another-program"))
    : k \in Keys(e) \cap DOMAIN CfgOf }
  \cup Imp(e.n = "wl" /\ Shaped(e),
      LET p == A(e,3)  cfg == "cfg/" \o p  au == A(e,1)
          s0 == IF IsDlp(L, cfg) THEN CfgSet(Dat(L, cfg)) ELSE {}
          s1 == IF e.args.ins THEN s0 \cup {A(e,2)} ELSE s0 \ {A(e,2)}
      IN V(IsS(e, au), "authority-did-not-sign")
         \cup V(au # "none" /\ au \in {UpAuth(L, "dlp"), UpAuth(L, p)}, "not-an-authority")
         \cup V(IsDlp(M, cfg) /\ Dat(M, cfg).t = "cfg" /\ CfgSet(Dat(M, cfg)) = s1, "set"))

(* --------------------------------- escrows --------------------------------- *)
P21(e, L, M) == Imp(e.n = "topup" /\ Shaped(e),
  LET p == A(e,1)  k == EscKey(A(e,2), e.args.idx)
      paid == Add(e.args.amt, IF IsDlp(L, k) THEN Zero ELSE Missing(Lam(L, k), Rent(0)))
  IN V(IsS(e, p), "payer-did-not-sign") \cup V(A(e,3) = k, "another-escrow")
     \cup V(Rises(L, M, k, paid), "credit") \cup V(Falls(L, M, p, paid), "debit")
     \cup V(Own(L, k) = Own(M, k) /\ Dat(L, k) = Dat(M, k), "holder-or-delegation-changed")
     \cup V(Changed(L, M, e) \subseteq {p, k}, "others-affected"))

P22(e, L, M) ==
  UNION {
    Imp(Own(L, k) = "sys" /\ (Lt(Lam(M, k), Lam(L, k)) \/ Own(M, k) # "sys"),
      V(IsS(e, Holder(k)), "holder-did-not-sign")
      \cup V(\/ e.n = "closeesc" /\ Shaped(e) /\ A(e,1) = Holder(k) /\ A(e,2) = k /\ Own(M, k) = "sys"
             \/ e.n = "delesc" /\ Shaped(e) /\ A(e,2) = Holder(k) /\ X(e) = k /\ Lam(M, k) = Lam(L, k), "drained-by-another-call"))
    : k \in Keys(e) \cap Escrows }
  \cup Imp(e.n = "closeesc" /\ Shaped(e),
      LET u == A(e,1)  k == EscKey(u, e.args.idx) IN
         V(IsS(e, u), "holder-did-not-sign") \cup V(A(e,2) = k, "another-escrow")
      \cup V(Own(L, k) = "sys", "delegated-escrow-closed")
      \cup V(Lam(M, k) = Zero, "balance-left") \cup V(Rises(L, M, u, Lam(L, k)), "refund")
      \cup V(Changed(L, M, e) \subseteq {u, k}, "others-affected"))

P23(e, L, M) == UNION {
  Imp(~Delegated(L, k) /\ Delegated(M, k),
    IF ~(e.n = "delesc" /\ Shaped(e)) THEN {"delegated-by-another-call"}
    ELSE V(X(e) = k /\ A(e,2) = Holder(k) /\ IsS(e, Holder(k)), "holder-did-not-sign")
         \cup V(IsS(e, A(e,1)), "payer-did-not-sign")
         \cup V(RecReadable(M, k) /\ RecD(M, k).own = "sys", "owner-program")
         \cup V(MetaReadable(M, k) /\ MetaD(M, k).seeds = SeedsOf(k), "seeds")
         \cup V(Lam(M, k) = Lam(L, k) /\ RecReadable(M, k) /\ RecD(M, k).lam = Lam(L, k), "balance")
         \cup V(IsDlp(M, k), "not-in-custody"))
  \cup Imp(Leaves(L, M, k), V(Own(M, k) = "sys" /\ Lam(M, k) = Lam(L, k) /\ Dat(M, k) = Dat(L, k), "not-an-ordinary-escrow"))
  : k \in (Touched(e) \cap Escrows) }

(* ------------------------------ across all parts ------------------------------ *)
MayFall(e, L, M, k) ==
  CASE k \in DOMAIN RecOf \cap Keys(e) /\ IsDlp(L, k) -> e.n = "undelegate" /\ RecOf[k] = X(e)
    [] k \in DOMAIN MetaOf /\ IsDlp(L, k) -> e.n = "undelegate" /\ MetaOf[k] = X(e)
    [] k \in DOMAIN CsOf /\ IsDlp(L, k) -> e.n = "finalize" /\ CsOf[k] = X(e)
    [] k \in DOMAIN CrOf /\ IsDlp(L, k) -> e.n = "finalize" /\ CrOf[k] = X(e)
    [] k \in DOMAIN VvOf /\ IsDlp(L, k) -> \/ e.n = "vclaim" /\ VvOf[k] = A(e,1)
                                           \/ e.n = "closevv" /\ VvOf[k] = A(e,4)
    [] k = "fv" -> e.n = "pclaim"
    [] k \in DOMAIN CfgOf -> FALSE
    [] k \in Deleg /\ IsDlp(L, k) ->
         e.n = "finalize" /\ k = X(e) /\ Pending(L, k) /\ CrD(L, k).t = "cr" /\ RecReadable(L, k) /\ Lt(CrD(L, k).lam, RecD(L, k).lam)
    [] k \in Escrows -> e.n = "closeesc" /\ k = A(e,2)
    [] k \in DOMAIN UbOf -> e.n = "undelegate" /\ UbOf[k] = X(e)
    [] OTHER -> IsS(e, k)      \* a wallet
P24(e, L, M) == Imp(Shaped(e),
       UNION {V(Lt(Lam(M, k), Lam(L, k)) => MayFall(e, L, M, k), "unjustified-debit") : k \in Keys(e)}
  \cup UNION {V(Lt(Lam(L, k), Lam(M, k)) => k \in Gainers(e), "undocumented-beneficiary") : k \in Keys(e)})
  \cup Imp(~Shaped(e), V(\A k \in Keys(e) : Lam(L, k) = Lam(M, k), "debit-by-malformed-call"))

P25(e, L, M) == Imp(Shaped(e),
       V(Changed(L, M, e) \subseteq Frame(e), "outside-frame")
  \cup V(Changed(L, M, e) = {} \/ IsGenuine(L, e) \/ Step(L, e).ok, "foreign-account-accepted")
  \cup V(IsGenuine(L, e) \/ Step(L, e).ok, "foreign-account-tolerated"))

(* what the creations of a call must cost its payer *)
Creations(L, M, e) == {k \in Keys(e) : ~IsDlp(L, k) /\ IsDlp(M, k) /\ k \notin Deleg}
PayerOf(e) == A(e, 1)
P30(e, L, M) == Imp(Shaped(e),
       UNION {V(IsDlp(M, k) /\ Lam(M, k) # Zero => Le(Rent(DLen(Dat(M, k))), Lam(M, k)), "not-rent-exempt")
              : k \in Creations(L, M, e) \cup (IF e.n = "wl" THEN {A(e,6)} ELSE {})}
  \cup Imp(e.n \in {"delegate", "delesc", "initfv", "initvv", "wl"},
         LET news == IF e.n = "wl" THEN {A(e,6)} ELSE Creations(L, M, e)
             want(k) == Max(Lam(L, k), Rent(DLen(Dat(M, k))))
             RECURSIVE cost(_)
             cost(S) == IF S = {} THEN Zero ELSE LET k == CHOOSE y \in S : TRUE IN Add(Sub(want(k), Lam(L, k)), cost(S \ {k}))
         IN UNION {V(Lam(M, k) = want(k), "balance-of-new-account") : k \in news}
            \cup V(Falls(L, M, PayerOf(e), cost(news)), "cost-to-payer"))
  \cup Imp(IsCommit(e) /\ Staged(L, M, e), P09(e, L, M))
  \cup Imp(e.n = "topup", V(IsDlp(L, A(e,3)) \/ Le(Rent(0), Lam(M, A(e,3))), "escrow-not-rent-exempt") \cup P21(e, L, M))
  \cup Imp(e.n = "finalize" /\ Pending(L, X(e)), V(Acc(M, "cs/" \o X(e)) = NoAcc /\ Acc(M, "cr/" \o X(e)) = NoAcc, "closed-not-empty"))
  \cup Imp(e.n = "undelegate", V(Acc(M, "rec/" \o X(e)) = NoAcc /\ Acc(M, "meta/" \o X(e)) = NoAcc, "closed-not-empty")
                               \cup V(NoData(L, X(e)) \/ Acc(M, "ubuf/" \o X(e)) = NoAcc, "closed-not-empty"))
  \cup Imp(e.n = "closevv", V(Acc(M, "vv/" \o A(e,4)) = NoAcc, "closed-not-empty")))

P31(e, L, M) ==
  IF ~Known(e) THEN {"unknown-instruction"}
  ELSE V(e.args.ok, "undecodable-arguments") \cup V(Len(e.a) = NAccs[e.n], "number-of-accounts")
       \cup Imp(Shaped(e) /\ ~Step(L, e).ok,
              V(\A i \in NeedSigs[e.n] : e.a[i].s, "missing-signature")
         \cup V(\A i \in NeedWrites[e.n] : IsW(e, A(e, i)), "missing-write-permission")
         \cup V(IsGenuine(L, e), "wrong-account"))

(* stored accounts stay decodable in the established format *)
P32(e, L, M) == UNION {
  V(IsDlp(M, "rec/" \o x) => RecD(M, x).t = "rec", "delegation-record-format")
  \cup V(IsDlp(M, "meta/" \o x) => MetaD(M, x).t = "meta", "metadata-format")
  \cup V(IsDlp(M, "cr/" \o x) => CrD(M, x).t = "cr", "commit-record-format")
  : x \in Touched(e) }
  \cup UNION {V(IsDlp(M, k) => Dat(M, k).t = "cfg", "whitelist-format") : k \in Keys(e) \cap DOMAIN CfgOf}
  \cup UNION {V(IsDlp(L, k) \/ ~IsDlp(M, k) \/ k \in Deleg \/ k = "fv" \/ \E t \in {RecOf, MetaOf, CsOf, CrOf, UbOf, VvOf, CfgOf} : k \in DOMAIN t,
                "address-derivation") : k \in Keys(e)}

(* the clauses of property P violated by a successful call *)
Judge(P, e, L, M) ==
  CASE P = "C01" -> P01(e, L, M) [] P = "C02" -> P02(e, L, M) [] P = "C03" -> P03(e, L, M)
    [] P = "C04" -> P04(e, L, M) [] P = "C05" -> P05(e, L, M) [] P = "C06" -> P06(e, L, M)
    [] P = "C07" -> P07(e, L, M) [] P = "C08" -> P08(e, L, M) [] P = "C09" -> P09(e, L, M)
    [] P = "C10" -> P10(e, L, M) [] P = "C11" -> P11(e, L, M) [] P = "C12" -> P12(e, L, M)
    [] P = "C13" -> P13(e, L, M) [] P = "C14" -> P14(e, L, M) [] P = "C15" -> P15(e, L, M)
    [] P = "C16" -> P16(e, L, M) [] P = "C17" -> P17(e, L, M) [] P = "C18" -> P18(e, L, M)
    [] P = "C19" -> P19(e, L, M) [] P = "C20" -> P20(e, L, M) [] P = "C21" -> P21(e, L, M)
    [] P = "C22" -> P22(e, L, M) [] P = "C23" -> P23(e, L, M) [] P = "C24" -> P24(e, L, M)
    [] P = "C25" -> P25(e, L, M) [] P = "C30" -> P30(e, L, M) [] P = "C31" -> P31(e, L, M)
    [] P = "C32" -> P32(e, L, M) [] OTHER -> {}

AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16",
             "C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27","C28","C29","C30","C31","C32","C33"}

(* --- what holds between transactions --- *)
(* T: accounts lost to a recorded known finding *)
Orphan(L, x) == (IsDlp(L, "rec/" \o x) \/ IsDlp(L, "meta/" \o x)) /\ ~IsDlp(L, x)
Inv(P, L, T, S) ==
  CASE P = "C03" -> UNION {
         V(IsDlp(L, "rec/" \o x) = IsDlp(L, "meta/" \o x), "record-without-metadata")
         \cup V(Orphan(L, x) => x \in T, "record-without-account") : x \in S }
    [] P = "C06" -> UNION {V(IsDlp(L, "cs/" \o x) = IsDlp(L, "cr/" \o x), "half-staged") : x \in S}
    [] P = "C28" -> UNION {V(Orphan(L, x) => x \in T, "delegation-without-account") : x \in S}
    [] P = "C30" -> UNION {V(IsDlp(L, p \o x) => Le(Rent(DLen(Dat(L, p \o x))), Lam(L, p \o x)), "not-rent-exempt")
                           : x \in S, p \in {"rec/", "meta/", "cs/", "cr/"}}
    [] OTHER -> {}
=============================================================================
