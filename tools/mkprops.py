import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["accounts (lamports, owner, data) before and after each transaction, and each instruction's result"],hook_needed=None)))
D="src/processor/delegate.rs";C="src/processor/commit_state.rs";CB="src/processor/commit_state_from_buffer.rs";F="src/processor/finalize.rs";U="src/processor/undelegate.rs"
LD="src/processor/utils/loaders.rs";PD="src/processor/utils/pda.rs";ST="src/state/"
p("C01","Delegation needs the account's consent and its genuine address",
 "An account becomes delegated only in a call in which both the account itself and the payer sign, while the account is in the program's custody. An account whose address is program-derived can be delegated only with seeds that derive exactly that address from the program it is delegated for (escrow balances, delegated for the system program, derive from this program). Any other call creates no delegation.",
 ["inputs","histories"],"Every call (signer set, account list, seeds, named owner, on-curve or derived address), direct or nested, in every reachable state.",
 "The tests delegate one fixed PDA, one on-curve wallet and one escrow with correct seeds and signers; they never vary seeds, owner, signers or state.",
 [D,"src/processor/delegate_ephemeral_balance.rs",LD],[("seed derivation check and signer checks",D),("is_on_curve exemption","src/processor/utils/curve.rs")])
p("C02","A delegation is recorded truthfully and starts a fresh session",
 "A successful delegation stores the account's address-specific record with the named owner program, the requested validator (or none), the commit frequency, the current slot and the account's balance at that moment, plus the exact seeds and the payer as rent beneficiary. The account's data is the data the owner handed over and its balance is unchanged. The session starts with last committed slot zero, undelegation not permitted and nothing staged, whatever happened in earlier sessions of the same account.",
 ["inputs","histories"],"All delegation arguments (frequency, any seed lists, any validator option, data of any length, any balance) and all histories including re-delegation after undelegation.",
 "Tests check a handful of fields for one delegation in a fresh ledger and never re-delegate.",
 [D,ST+"delegation_record.rs",ST+"delegation_metadata.rs"],[("record and metadata initialisation",D)])
p("C03","Each account has at most one live delegation, immutable until undelegation",
 "While an account is delegated, it stays in the program's custody with both its delegation record and metadata present; no call replaces them, and owner, validator, delegation slot, commit frequency, seeds and rent payer never change. A delegation record and metadata exist only for an account that is delegated, so the three appear together and disappear together, only through delegation and undelegation.",
 ["histories","inputs"],"All histories of calls by any callers, successful and failed, over several accounts and sessions.",
 "A state invariant over unbounded histories; tests run at most one linear session per ledger.",
 [D,F,U,C,LD],[("load_uninitialized_pda guards on record and metadata",D),("cleanup on undelegation",U)])
p("C04","Only an admitted and approved validator's own signature can stage a commit",
 "A new commit is staged only when the committing validator signed and it currently holds an initialized validator fees vault of its own. If the program the account was delegated for has a validator whitelist, the validator must also be on that exact program's list at that moment. No other identity's vault or other program's list can stand in.",
 ["inputs","histories","configurations"],"All signers, vaults, whitelists (absent, empty, with or without the validator, of other programs) and both commit forms.",
 "Tests try one whitelisted and one non-whitelisted validator; not removal, re-adding, vault closure, wrong vault, wrong program's list, or the buffer form.",
 [C,CB,LD,ST+"program_config.rs"],[("vault and whitelist checks",C),("load_program_config",LD)])
p("C05","A commit stages exactly what was submitted and alters nothing else",
 "A successful, not outdated commit stores, in the two staging accounts belonging to that delegated account, exactly the submitted data, slot and balance and the committing validator's identity. The delegated account, its delegation record and the last finalized slot are unchanged by the commit; besides the staging accounts only the undelegation flag and the validator's own balance change.",
 ["inputs","histories"],"All data lengths and contents, slots and balances (64-bit), in every reachable state, direct or from a buffer.",
 "Tests commit two or three fixed payloads once each.",
 [C,CB,ST+"commit_record.rs"],[("process_commit_state_internal",C)])
p("C06","At most one commit is pending and it cannot be altered or replaced",
 "While a commit is staged for an account, every further commit for that account that is not outdated fails and leaves everything as it was; staged data and its record are never changed, replaced or partially removed by any call. They appear together in a commit and disappear together only when finalized.",
 ["histories","inputs"],"All histories of commits, finalizations, claims, deposits and other calls from any number of validators.",
 "Tests never commit twice without finalizing.",
 [C,F],[("load_uninitialized_pda on commit state and record",C)])
p("C07","Finalized slots never go back; outdated commits are harmless no-ops",
 "Within a delegation the last finalized slot never decreases, and after a finalization it equals the slot of the commit just finalized. A commit for an earlier slot than the last finalized one succeeds without changing anything, while a commit at the same or a later slot is not skipped.",
 ["inputs","histories"],"All 64-bit slots, in particular around the last finalized slot, and any bundle of commits and finalizations.",
 "Tests use fixed slots; equality and boundary slots, repeated sessions and 64-bit extremes are not exercised.",
 [C,F],[("slot comparison",C),("last_update_external_slot update",F)])
p("C08","Permission to undelegate is a one-way latch set by the validator's commit",
 "An account becomes undelegatable exactly when a commit asking for it is accepted; a commit not asking for it does not grant it. Once granted the permission is never withdrawn until the account is undelegated, and from then on every commit that is not outdated is refused.",
 ["histories","inputs"],"All histories of commits (accepted, outdated, refused), finalizations and undelegations.",
 "Tests set the flag once; they check neither later commits nor the flag after finalization.",
 [C,F,U],[("is_undelegatable check and update",C)])
p("C09","A committed balance increase is fully collateralised by the validator",
 "When a validator commits a balance above the recorded one, the difference leaves that validator's own wallet and is held in the staged state account until finalization, on top of whatever was already there; the validator otherwise pays only the missing rent of the staging accounts. If it cannot pay, nothing is staged. A commit at or below the recorded balance locks no collateral.",
 ["inputs","histories"],"All recorded and committed balances including boundaries and 64-bit extremes, pre-funded staging accounts, poor validators.",
 "One test commits one increase and one decrease.",
 [C,PD],[("extra lamports transfer",C)])
p("C10","Finalization installs exactly the staged state and consumes it",
 "A finalization with a pending commit makes the delegated account's data exactly the staged data, of any length, sets the last finalized slot to the staged slot, and sets the recorded balance to the account's balance afterwards. Both staging accounts are then gone, and everything left in them returned to the committing validator.",
 ["inputs","histories"],"All staged data lengths (growing, shrinking, empty, with any trailing bytes), slots and balances in every reachable state.",
 "Tests finalize equal-length or growing payloads once.",
 [F,PD],[("process_finalize copy, realloc and close",F)])
p("C11","Only the validator that staged a commit can finalize it",
 "A pending commit is finalized only by a call signed by the very identity recorded as its committer, which still has its own initialized fees vault, and only onto the account it was committed for. Any other attempt fails and changes nothing.",
 ["inputs","histories"],"All signers, admitted or not, all vaults, all combinations of staging accounts of different delegated accounts.",
 "Tests finalize with the right validator only.",
 [F,LD],[("identity and account checks",F)])
p("C12","Settlement moves exactly the committed difference",
 "On finalization, if the committed balance is below the recorded one, exactly the difference moves from the delegated account to the finalizing validator's fees vault; if above, exactly the difference moves from the staged collateral to the delegated account; if equal, nothing moves. Lamports the account received in the meantime stay with it, and no lamports are created or destroyed.",
 ["inputs","histories"],"All recorded, committed and actual balances, deposits at any time between commit and finalization.",
 "Three fixed balance scenarios; deposits in between and boundaries are not covered.",
 [F],[("settle_lamports_balance",F)])
p("C13","Finalizing with nothing pending succeeds and changes nothing",
 "For a delegated account without a pending commit, a well-formed finalization by an admitted validator succeeds and changes no account, even if stray lamports were sent to the staging addresses. It never breaks other instructions bundled in the same transaction.",
 ["histories","inputs"],"All delegated accounts and session states with nothing staged, including unsolicited deposits at staging addresses.",
 "No test finalizes without a commit, or with pre-funded staging addresses.",
 [F,LD],[("skip branch",F)])
p("C14","Undelegation happens only when allowed, settled and correctly addressed",
 "An account is undelegated only if the session permits it, no commit is pending, an admitted validator (owning an initialized fees vault) signed, the recorded owner program and the recorded rent payer are named, and the protocol vault exists. In every other case the call fails and the delegation stays as it was.",
 ["inputs","histories"],"All reachable states and all substitutions of signer, owner, rent payer, vaults and staging accounts.",
 "Tests cover success, plus one wrong-permission case.",
 [U,LD],[("guards",U)])
p("C15","Undelegation hands the account back intact, whatever the owner program does",
 "After a successful undelegation the account has left custody and belongs to the recorded owner program (or where that program's own call-back put it), with the same data and the same balance as before plus only what the owner program itself added; the validator's wallet neither gains nor loses from the hand-over. If the owner program's callback fails, restores other data, or takes or adds validator lamports, the whole undelegation fails and the delegation stays as it was.",
 ["inputs","histories","fault_sequences"],"All data lengths and contents, all balances (including extra deposits), and all behaviours of the owner program during the call-back.",
 "Tests use one well-behaved owner program binary and one payload.",
 [U],[("balance and data checks after the call-back",U)])
p("C16","Undelegation removes every session artifact and splits its rent 90/9/1",
 "A successful undelegation leaves no record, metadata, staging or buffer account of the session. Of the balance of the record, and likewise of the metadata, ten percent is taken as fee (rounded down), of which ten percent (rounded down) goes to the protocol vault and the rest to the undelegating validator's vault, and everything else goes to the recorded rent payer; nothing else is paid out of them.",
 ["inputs","histories"],"All balances of the two accounts (after arbitrary deposits, any seeds length), all rent payers including the validator itself.",
 "Tests compute the split for one fixed pair of balances.",
 [U,PD],[("close_pda_with_fees",PD)])
p("C17","Fees leave a validator vault only to its validator, 90/10 with the protocol",
 "A validator claim, signed by that validator, takes the requested amount (or by default all above the rent reserve) from that validator's own vault, credits one tenth (rounded down) to the protocol vault and the rest to the validator. A claim for more than the vault holds above its rent reserve fails, and the vault never drops below the reserve.",
 ["inputs","histories"],"All vault balances and requested amounts (none, zero, exact limits, 64-bit extremes), all signers and vaults.",
 "Tests claim two fixed amounts from one vault.",
 ["src/processor/validator_claim_fees.rs",LD],[("amount computation","src/processor/validator_claim_fees.rs")])
p("C18","Protocol fees are claimable only by the program's upgrade authority",
 "Lamports leave the protocol fees vault only in a claim signed by the current upgrade authority of this program, to that authority; the claim pays exactly what is above the vault's rent reserve. If the program has no upgrade authority, nobody can claim.",
 ["inputs","histories","configurations"],"All signers, upgrade-authority configurations (present, changed, revoked, forged program data) and vault balances.",
 "Tests run with a compiled-in test authority; the real authority path is not exercised.",
 ["src/processor/protocol_claim_fees.rs",LD],[("load_program_upgrade_authority",LD)])
p("C19","Validators are admitted and removed only by the upgrade authority",
 "A validator fees vault is created or closed only in a call signed by the program's current upgrade authority; the protocol vault is created once by anyone. A created vault belongs to the named validator identity alone, is empty apart from rent, and closing it pays its whole balance to that validator and revokes admission; none can be created twice, and an existing protocol vault is never re-created or closed.",
 ["inputs","histories","configurations"],"All signers, identities, upgrade-authority configurations, repeated creation and closure, pre-funded addresses.",
 "Tests cover one creation and one closure with the compiled-in authority and one wrong admin.",
 ["src/processor/init_validator_fees_vault.rs","src/processor/close_validator_fees_vault.rs","src/processor/init_protocol_fees_vault.rs",LD],[("authority check","src/processor/init_validator_fees_vault.rs")])
p("C20","A program's whitelist changes only by its authorities, one entry at a time",
 "A program's validator whitelist changes only in a call signed by the upgrade authority of this program or of that very program. An insertion makes the list exactly the previous set plus the named validator, a removal exactly the previous set without it; both are idempotent and no other program's list changes.",
 ["inputs","histories","configurations"],"All sets of validators, insert/remove sequences, signers and upgrade-authority configurations of both programs.",
 "Tests insert and remove one validator with a few authorities.",
 ["src/processor/whitelist_validator_for_program.rs",ST+"program_config.rs",PD],[("validate_authority and set update","src/processor/whitelist_validator_for_program.rs")])
p("C21","Escrow top-ups credit exactly the named user's escrow",
 "A top-up signed by the payer increases the escrow of the named user and index by exactly the requested amount, plus, only while the escrow is not delegated, what it lacks to be rent exempt; the payer loses exactly that and nobody else is affected. It never changes who holds the escrow or whether it is delegated.",
 ["inputs","histories"],"All amounts (including zero), indices 0..255, payers, users, existing balances and delegated escrows.",
 "Tests top up a few fixed amounts with index 0 and 1.",
 ["src/processor/top_up_ephemeral_balance.rs"],[("create_pda and transfer","src/processor/top_up_ephemeral_balance.rs")])
p("C22","Closing an escrow refunds all of it, to its holder only",
 "Lamports leave an undelegated escrow only when its holder signs, by delegation or by closing it, and closing moves its entire balance to the holder. A delegated escrow cannot be closed; closing an empty one succeeds without effect; other indices and other users' escrows are untouched.",
 ["inputs","histories"],"All indices, holders, balances, delegation states and substituted accounts.",
 "Tests close one escrow.",
 ["src/processor/close_ephemeral_balance.rs"],[("seed derivation from payer and owner check","src/processor/close_ephemeral_balance.rs")])
p("C23","Escrows are delegated by their holder only and return to them",
 "An escrow becomes delegated only if its holder and the payer sign; the delegation is recorded for the system program with the escrow's own derivation seeds, and the balance stays intact. After undelegation it is again an ordinary escrow that its holder can close, with its settled balance.",
 ["inputs","histories"],"All indices, holders, payers, balances, caller-supplied arguments and sessions with commits that change the balance.",
 "One test delegates an escrow; the round trip is not tested.",
 ["src/processor/delegate_ephemeral_balance.rs",U],[("assign + nested delegation","src/processor/delegate_ephemeral_balance.rs")])
p("C24","Lamports in custody leave only through the documented flows",
 "No call takes lamports from a delegated account, delegation record or metadata, staging account, fees vault, whitelist account or escrow except finalization settlement and refund, undelegation, fee claims, vault closure and escrow closure, each to its documented beneficiary. Every other successful call leaves each of these balances at least as high as before, and no call debits a wallet that did not sign.",
 ["histories","inputs"],"All calls by all callers in all reachable states, including nested calls and malformed ones.",
 "A conservation law over all histories; tests look at the two or three balances each of them is about.",
 [F,U,"src/processor/validator_claim_fees.rs","src/processor/protocol_claim_fees.rs","src/processor/close_validator_fees_vault.rs","src/processor/close_ephemeral_balance.rs"],[("lamport moves",PD)])
p("C25","Calls touch only the accounts that belong to the named account",
 "An operation on one delegated account, validator, program or escrow never changes the record, staging, vault, whitelist or balance of another. Passing, in place of an account the call depends on, one derived for a different account, validator, program or index makes the call fail, and a failed call leaves no trace.",
 ["inputs","histories"],"All substitutions of each account of each call by any other account in the ledger, in every reachable state.",
 "Tests pass the right accounts, apart from a few single substitutions.",
 [LD,D,C,F,U],[("seed checks on every derived account",LD)])
p("C26","Well-formed session operations are never refused",
 "A delegation, commit, finalization or undelegation that satisfies the documented requirements and is built as the client library builds it succeeds, for every data size the platform allows, balance, slot, seeds and number of earlier sessions.",
 ["inputs","histories"],"All reachable states and arguments for which the specification's guards hold.",
 "Tests sample one success path per operation with small data.",
 [D,C,CB,F,U,"src/instruction_builder/"],[("instruction builders and guards","src/instruction_builder/")])
p("C27","Well-formed fee, admission, whitelist and escrow operations are never refused",
 "A vault creation or closure, fee claim, whitelist change, top-up, escrow delegation or escrow closure that satisfies the documented requirements and is built as the client library builds it succeeds, for every amount, index, whitelist size and history.",
 ["inputs","histories","configurations"],"All reachable states and arguments for which the specification's guards hold.",
 "Tests sample one success path per operation.",
 ["src/processor/","src/instruction_builder/"],[("instruction builders and guards","src/instruction_builder/")])
p("C28","A delegated account can always be brought home",
 "From every reachable state, each delegated account whose owner program cooperates can be returned, possibly after adding lamports to restore its rent exemption: any pending commit can be finalized by its committer, then a commit at the current balance and a late enough slot permitting undelegation can be staged and finalized by an approved admitted validator, and the account undelegated to its owner. No sequence of calls by anybody leaves an account stuck or a delegation without its account.",
 ["histories","inputs"],"All reachable states of all histories, including hostile deposits and repeated sessions.",
 "Reachability from every state; tests visit only the states on their straight-line path.",
 [C,F,U,D],[("lifecycle guards",C)])
p("C29","Unsolicited deposits can neither block nor corrupt any operation",
 "Anyone may send lamports to any address. Sending lamports to a not yet created or existing address of the protocol never turns a valid operation into a failing one, and the operation then has the same effect, apart from the deposited lamports remaining in place or following the account to its documented beneficiary.",
 ["histories","fault_sequences"],"All addresses and amounts (tiny, below, at and above the rent threshold) deposited before any operation.",
 "Tests never pre-fund an address.",
 [PD,C,F],[("create_pda pre-funded branch",PD)])
p("C30","Accounts the program creates are rent exempt and paid by the designated payer",
 "Every account the program creates holds at least the rent-exempt minimum for its size when the call completes, and what was missing is paid by the designated payer of that call, no more and no less. Closed accounts are left without lamports and data.",
 ["inputs","histories"],"All creations with any size (data, seeds, whitelist growth) and any pre-existing balance of the address.",
 "Tests do not check created balances against sizes in general.",
 [PD,D,C,"src/processor/whitelist_validator_for_program.rs"],[("create_pda, resize_pda, close_pda",PD)])
p("C31","Malformed calls are refused without effect",
 "A call with an unknown instruction code, missing or undecodable arguments, bytes left over after a structured argument, missing or extra accounts, accounts in the wrong order, or without a required signature or write permission is refused and changes nothing.",
 ["inputs"],"All byte strings and account lists.",
 "Tests almost always send well-formed calls.",
 ["src/lib.rs","src/discriminator.rs","src/args/",LD],[("dispatch and argument decoding","src/lib.rs"),("loaders",LD)])
p("C32","Stored records keep their format, so running sessions continue",
 "Delegation records, metadata, commit records and whitelists are stored in the established binary format (type tags, field order and widths), and instruction codes, argument encoding and address derivation are stable, so that sessions and clients that predate a change keep working unchanged.",
 ["histories","inputs"],"All field values, variable-length contents, and ledgers containing sessions started earlier.",
 "Tests encode and decode with the same code under test, so a changed format stays self-consistent.",
 ["src/state/","src/args/","src/discriminator.rs","src/pda.rs"],[("serialization macros","src/state/utils/")])
p("C33","Committing from a buffer is equivalent to committing directly",
 "Committing from a buffer account succeeds in exactly the same states as committing the same data, slot, balance and permission directly, and then stages exactly the same; the buffer itself is not changed.",
 ["inputs","histories"],"All states, data (including empty and larger than fits one transaction), slots and balances.",
 "Each form is tested alone with one payload.",
 [C,CB],[("shared internal routine",C)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
