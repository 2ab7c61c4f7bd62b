#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

PR="src/processor/"
REC=("delegation record","per-account record: authority, original owner, slot, lamports, commit frequency","src/state/delegation_record.rs")
META=("delegation metadata","per-account metadata: last committed slot, undelegation flag, seeds, rent payer","src/state/delegation_metadata.rs")
CREC=("commit record","pending commit: validator identity, account, slot, lamports","src/state/commit_record.rs")
CST=("commit state","pending committed bytes plus the lamports deposited for them",PR+"commit_state.rs")
CFG=("program config","per-program set of approved validators","src/state/program_config.rs")
VV=("validator fees vault","per-validator vault; existence = registered",PR+"init_validator_fees_vault.rs")
PV=("protocol fees vault","protocol-wide vault",PR+"init_protocol_fees_vault.rs")
OBS=["post-transaction account states (lamports, owner, data)","per-transaction success or failure"]

prop("C01","Delegation lifecycle: only legal stage transitions, legal ones always work",
 "Every account moves only through the stages not delegated, delegated, commit pending, finalized (possibly repeated), undelegatable, and back to not delegated. A step that is legal in the current stage and carries the right accounts, signers and sufficient funds succeeds and produces the next stage; a step that is not legal in the current stage (delegating twice, committing on top of a pending commit, finalizing or undelegating something never delegated) fails and changes nothing. After undelegation the same account can be delegated again with a fresh record.",
 ["histories"],"all finite histories of delegate/commit/finalize/undelegate (plus unrelated traffic) over any number of accounts, owners, validators and slots",
 "The tests run each instruction once from a hand-built starting state; the guarantee is about every sequence, including repeats, re-delegation and interleavings of several accounts.",
 [PR+"delegate.rs",PR+"commit_state.rs",PR+"finalize.rs",PR+"undelegate.rs"],
 [("record/metadata must be uninitialized to delegate",PR+"delegate.rs"),("commit accounts must be uninitialized to commit",PR+"commit_state.rs"),("commit accounts consumed by finalize",PR+"finalize.rs"),("record/metadata closed by undelegate",PR+"undelegate.rs")],
 [REC,META,CREC,CST],OBS)

prop("C02","Finalize writes exactly the committed data, and only finalize changes it",
 "After a commit is finalized the delegated account holds byte for byte the data given in that commit, with exactly that length, whether the data grew, shrank, became empty or was unchanged. While an account is delegated its data changes only when a pending commit is finalized, and a commit by itself never alters it. Delegating preserves the account's data unchanged from what the owner program handed over.",
 ["inputs","histories"],"all data contents and lengths (growing, shrinking, empty), all sequences of commits and finalizes",
 "The tests commit a few fixed byte strings once; they cannot cover every old/new length pair, stale bytes after shrinking then growing, or several successive commits.",
 [PR+"delegate.rs",PR+"commit_state.rs",PR+"finalize.rs"],
 [("copy args into commit state",PR+"commit_state.rs"),("realloc + copy into delegated account",PR+"finalize.rs"),("copy buffer back into account",PR+"delegate.rs")],
 [CST],OBS)

prop("C03","Finalize settles lamports exactly between account, validator and vault",
 "Finalizing a commit changes the delegated account's balance by exactly (committed lamports - recorded lamports): an increase is paid from what the committing validator deposited at commit time and a decrease goes to that validator's fees vault. Lamports that reached the account from outside the protocol are kept, the record afterwards equals the account's actual balance, and everything left in the commit accounts (rent and any surplus) returns to the validator. A commit whose committed lamports exceed the recorded lamports takes exactly the difference, plus rent not already covered, from the validator.",
 ["inputs","histories"],"all committed/recorded/actual lamport triples including equal, zero and near-limit values, and donations at any point between steps",
 "The tests use three or four hand-picked balances; settlement must be exact for every combination and over repeated commits with donations in between.",
 [PR+"commit_state.rs",PR+"finalize.rs"],
 [("deposit of the difference",PR+"commit_state.rs"),("settle_lamports_balance and record update",PR+"finalize.rs"),("close commit accounts to validator",PR+"finalize.rs")],
 [REC,CREC,CST,VV],OBS)

prop("C04","No transaction takes lamports or control from a party that did not agree",
 "No instruction ever reduces the balance or changes the owner or data of a wallet that did not sign the transaction, and a signer loses only what its role in that instruction costs (rent it funds, the commit deposit, the top-up amount). Balances held by the program (delegated accounts, commit deposits, escrows, vaults, records) leave only through the entitled flow: finalize, undelegate, escrow close by its owner, claims by their beneficiary, or vault closing. Lamports are never created or destroyed.",
 ["inputs","histories"],"all histories and all adversarially composed account lists, signer subsets and bundles",
 "Unit tests check the balances of the accounts they look at, in the flows they run; draining attacks use account lists and orders no test builds.",
 [PR+"commit_state.rs",PR+"finalize.rs",PR+"undelegate.rs",PR+"validator_claim_fees.rs",PR+"protocol_claim_fees.rs",PR+"close_ephemeral_balance.rs",PR+"close_validator_fees_vault.rs"],
 [("close_pda / close_pda_with_fees / direct lamport moves",PR+"utils/pda.rs"),("signer and PDA loaders",PR+"utils/loaders.rs")],
 [VV,PV],OBS)

prop("C05","Only a registered validator that signs can commit, finalize, undelegate, claim",
 "Commit, commit from buffer, finalize, undelegate and validator fee claims take effect only if the acting validator signed and that very validator is registered by the protocol admin (its fees vault exists). A vault belonging to another validator, a never-created or closed vault, or a look-alike account never suffices.",
 ["inputs","histories"],"all validator/vault pairings, signer flags, and histories of registering and closing validators",
 "Tests cover the registered happy path and a few missing-signer cases, not every instruction crossed with every wrong pairing and every registration history.",
 [PR+"commit_state.rs",PR+"commit_state_from_buffer.rs",PR+"finalize.rs",PR+"undelegate.rs",PR+"validator_claim_fees.rs",PR+"utils/loaders.rs"],
 [("load_initialized_validator_fees_vault",PR+"utils/loaders.rs"),("load_signer",PR+"utils/loaders.rs")],
 [VV],OBS)

prop("C06","A program's validator whitelist is enforced on every effective commit",
 "If the program that owns a delegated account has a validator whitelist, a commit (direct or from a buffer) for that account takes effect only when the committing validator is in the whitelist at that moment, and an empty whitelist admits nobody. If the program has no whitelist any registered validator may commit. The whitelist consulted is always the one of the account's recorded owner program, never another program's.",
 ["histories","configurations"],"all whitelist contents, insertion/removal histories, owners and validators, including configs of other programs supplied instead",
 "Tests exercise one program with one validator; the rule must hold after any insert/remove history and with several programs' configs in play.",
 [PR+"commit_state.rs",PR+"utils/loaders.rs","src/state/program_config.rs"],
 [("load_program_config + approved_validators check",PR+"commit_state.rs")],
 [CFG],OBS)

prop("C07","A pending commit is finalized only by the validator that committed it, as is",
 "A pending commit can be finalized only by the same validator that made it and only into the account it was made for; any other validator, even registered and whitelisted, is refused with no effect. The rent and deposit locked in the commit therefore return only to that validator.",
 ["inputs","histories"],"all pairs of committing and finalizing validators, all pairs of accounts with pending commits, any interleaving",
 "Tests finalize with the committing validator only; they do not mix several validators' and accounts' pending commits.",
 [PR+"finalize.rs"],
 [("identity and account match against commit record",PR+"finalize.rs")],
 [CREC,CST],OBS)

prop("C08","Committed slots never go backwards; outdated commits are harmless no-ops",
 "The last-update slot of a delegated account starts at zero, never decreases while it is delegated, and after a finalize equals the slot of the commit that was finalized. A commit for a slot lower than the last finalized one succeeds without any effect whatsoever (no accounts, no lamports, no flags), and one for an equal or higher slot is not treated as outdated.",
 ["histories","inputs"],"all sequences of slots including equal, zero, maximal and out-of-order ones, bundled or not",
 "Tests try one outdated slot; monotonicity is a property of every history of slots and of every bundle.",
 [PR+"commit_state.rs",PR+"finalize.rs","src/state/delegation_metadata.rs"],
 [("slot comparison and skip",PR+"commit_state.rs"),("slot update",PR+"finalize.rs")],
 [META,CREC],OBS)

prop("C09","Undelegation happens only after a commit allowed it and nothing is pending",
 "An account can be undelegated only if a commit that took effect since its delegation allowed undelegation, and only when no commit is pending. Once a commit has allowed undelegation every later commit for that delegation that is not outdated is refused, and a commit that does not allow it leaves the account not undelegatable.",
 ["histories"],"all histories of commits with and without the allow flag, finalizes, undelegations and re-delegations",
 "Tests set the flag in a fixture; the gate has to hold over every order of commits, finalizes and re-delegations.",
 [PR+"commit_state.rs",PR+"undelegate.rs","src/state/delegation_metadata.rs"],
 [("is_undelegatable set at commit, checked in undelegate",PR+"undelegate.rs"),("commit accounts must be uninitialized",PR+"undelegate.rs")],
 [META,CREC,CST],OBS)

prop("C10","Undelegation returns the account to its owner with its data and balance intact",
 "After a successful undelegation the account is owned by the program recorded as owner at delegation, holds exactly the data it held before, and holds exactly the lamports it held before. The validator's balance is unchanged by it, the temporary buffer, record and metadata are gone, and the owner program was handed the account's own derivation seeds. Accounts with no data are simply reassigned to their recorded owner.",
 ["inputs","histories"],"all data lengths and contents, balances at or above rent exemption, seed lists, owners (programs or the system program), after any history",
 "Tests undelegate a couple of fixed accounts; exact restoration must hold for every size, balance, seed list and history, including donations just before.",
 [PR+"undelegate.rs"],
 [("undelegate buffer, close, CPI, refund of extra lamports",PR+"undelegate.rs"),("seeds stored in metadata",PR+"delegate.rs")],
 [REC,META],OBS)

prop("C11","Ending a delegation refunds its rent to the rent payer minus the exact fee split",
 "When a delegation ends, the lamports held by its record and by its metadata are each distributed in full: a fee of 10 percent (rounded down) is withheld and the rest goes to the account that paid for the delegation. Of each fee, 10 percent (rounded down) goes to the protocol vault and the remainder to the undelegating validator's vault. Only the account recorded as rent payer can receive the refund.",
 ["inputs","histories"],"all record/metadata balances (including donations to them), seed lists, and substituted refund or vault accounts",
 "Tests compare one fixed rent value; rounding and the split must be exact for every balance and for each closed account separately.",
 [PR+"undelegate.rs",PR+"utils/pda.rs","src/consts.rs"],
 [("close_pda_with_fees",PR+"utils/pda.rs"),("rent payer check",PR+"undelegate.rs")],
 [META,VV,PV],OBS)

prop("C12","A misbehaving owner program cannot make an undelegation succeed dishonestly",
 "During undelegation the owner program is called with the validator's signature; whatever it does, a successful undelegation implies that the account again holds exactly its data, that the account holds exactly the lamports it held, that the validator lost no lamports and kept full control of its wallet, and that no other balance than those of the closed record and metadata was reduced. If the owner program fails, leaves the account unopened, re-opens it with different data, or charges or pays the validator anything but the exact re-opening rent, the whole undelegation fails and nothing changes.",
 ["fault_sequences","programs"],"all behaviours of the called owner program built from re-creating, resizing, funding, writing, assigning, over- or under-charging, re-entering and failing, in any combination",
 "The test suite has one honest owner program; a hostile one can combine effects in ways no fixture enumerates.",
 [PR+"undelegate.rs"],
 [("validator balance check after CPI",PR+"undelegate.rs"),("data equality check after CPI",PR+"undelegate.rs")],
 [],OBS)

prop("C13","Validator fee claims pay exactly, keep 10% for the protocol and the vault's rent",
 "A validator's claim of an amount moves exactly that amount out of its own vault: 10 percent (rounded down) to the protocol vault and the rest to the validator. A claim without an amount takes everything above the vault's rent-exempt minimum, and a claim for more than that fails with no effect, so the vault never falls below rent exemption.",
 ["inputs","histories"],"all amounts (zero, maximal, one above the available), all vault balances, all sequences of claims and earnings",
 "Tests claim a couple of amounts; exactness, rounding and the limit must hold for every amount and balance.",
 [PR+"validator_claim_fees.rs","src/consts.rs"],
 [("amount default, limit and split",PR+"validator_claim_fees.rs")],
 [VV,PV],OBS)

prop("C14","Protocol fees go only to the protocol admin, leaving the vault rent-exempt",
 "A protocol fee claim succeeds only when signed by the delegation program's current upgrade authority, and then pays it exactly everything above the rent-exempt minimum of the protocol vault, which stays rent-exempt. The protocol vault can be created by anyone, only once, and at its one address.",
 ["inputs","configurations","histories"],"all signers, all upgrade-authority configurations (set, rotated, removed, malformed or substituted authority data), all vault balances",
 "The tests replace the authority by a test constant, so the real authority check is never executed by them.",
 [PR+"protocol_claim_fees.rs",PR+"init_protocol_fees_vault.rs",PR+"utils/loaders.rs"],
 [("load_program_upgrade_authority",PR+"utils/loaders.rs"),("amount = lamports - rent",PR+"protocol_claim_fees.rs")],
 [PV],OBS)

prop("C15","Only the protocol admin registers or unregisters validators",
 "A validator's fees vault is created or closed only when the delegation program's current upgrade authority signed, along with the payer. Registering creates the vault of exactly the named validator, rent-exempt and only if it is not already registered; unregistering removes it and pays its whole balance to that validator.",
 ["inputs","configurations","histories"],"all signers, authority configurations (set, rotated, removed, substituted), validators and register/unregister histories",
 "The tests use a built-in test authority and one validator; the real authority lookup and re-registration histories are not exercised.",
 [PR+"init_validator_fees_vault.rs",PR+"close_validator_fees_vault.rs",PR+"utils/loaders.rs"],
 [("load_program_upgrade_authority",PR+"utils/loaders.rs"),("close_pda to validator identity",PR+"close_validator_fees_vault.rs")],
 [VV],OBS)

prop("C16","A whitelist changes only by admin or program authority, and behaves as a set",
 "A program's validator whitelist is changed only when the signer is the delegation program's upgrade authority or that same program's upgrade authority. After any sequence of insertions and removals it contains exactly the validators inserted and not removed since (duplicates and absent removals are harmless), other programs' whitelists are untouched, and its account stays rent-exempt and sized to its content.",
 ["histories","configurations","inputs"],"all histories of inserts/removes by any signers over several programs, all authority configurations including missing or malformed ones",
 "Tests insert and remove one validator; set semantics, resizing and authority rules need arbitrary histories and configurations.",
 [PR+"whitelist_validator_for_program.rs",PR+"utils/loaders.rs",PR+"utils/pda.rs","src/state/program_config.rs"],
 [("validate_authority",PR+"whitelist_validator_for_program.rs"),("resize_pda",PR+"utils/pda.rs")],
 [CFG],OBS)

prop("C17","Escrow top-up and close move exactly the right funds to the right party",
 "Topping up a payer's escrow (identified by wallet and index 0-255) adds exactly the given amount from the paying signer, plus at most what is needed to make a not-yet-existing escrow rent-exempt. Closing an undelegated escrow pays its whole balance to the wallet it belongs to and needs that wallet's signature; a delegated escrow cannot be closed. Different wallets and indexes never share an escrow.",
 ["inputs","histories"],"all wallets, indexes, amounts, pre-existing balances, and interleavings with delegation of the escrow",
 "Tests use index 0/1 and one amount; the guarantee covers every index, amount, donor and order of operations.",
 [PR+"top_up_ephemeral_balance.rs",PR+"close_ephemeral_balance.rs"],
 [("create_pda + transfer",PR+"top_up_ephemeral_balance.rs"),("signed transfer of full balance",PR+"close_ephemeral_balance.rs")],
 [],OBS)

prop("C18","An escrow is delegated only with its wallet's signature and comes back to it",
 "An escrow can be delegated only when the wallet it belongs to signed; its record then names the system program as owner and the escrow's own derivation as seeds, regardless of what the caller supplied. After undelegation the escrow is again a plain system account with its settled balance that its wallet can close.",
 ["inputs","histories"],"all wallets, indexes, caller-supplied seeds and validators, and full delegate/commit/finalize/undelegate/close histories",
 "Tests delegate one escrow once; binding and recoverability must hold for all indexes, arguments and histories.",
 [PR+"delegate_ephemeral_balance.rs",PR+"delegate.rs",PR+"close_ephemeral_balance.rs"],
 [("seeds override and signed CPI",PR+"delegate_ephemeral_balance.rs")],
 [REC,META],OBS)

prop("C19","Delegation requires the account's own authorization and correct derivation",
 "An account becomes delegated only if it signed (through its owner program for derived addresses), has been handed to the delegation program, and the payer signed. For a derived address the supplied seeds must derive it under the named owner program (for escrows, under the delegation program with the system program as owner); nobody can have another owner, other seeds or another buffer recorded for it.",
 ["inputs"],"all accounts (on-curve wallets, derived addresses with 0 to 15 seeds), all named owners, seeds, buffers and signer combinations",
 "Tests check a few wrong-argument cases; soundness is over every combination of seeds, owner and signer flags.",
 [PR+"delegate.rs",PR+"utils/curve.rs",PR+"utils/loaders.rs"],
 [("owner, signer, seeds and buffer checks",PR+"delegate.rs")],
 [REC,META],OBS)

prop("C20","The delegation record and metadata say exactly what was delegated",
 "A successful delegation stores a record with the owner program, the requested validator authority (or none), the requested commit frequency, the current slot and the account's current lamports, and metadata with the exact seeds, the rent payer, last-update slot zero and not undelegatable. While delegated, only the recorded lamports, last-update slot and undelegation flag ever change; both accounts are rent-exempt and live at the published addresses.",
 ["inputs","histories"],"all arguments, slots, balances and later histories",
 "Tests read back a few fields for one input; every field must be right for every input and stay right through every later operation.",
 [PR+"delegate.rs","src/state/delegation_record.rs","src/state/delegation_metadata.rs","src/pda.rs"],
 [("record and metadata initialization",PR+"delegate.rs")],
 [REC,META],OBS)

prop("C21","Supplying a different account than the derived one is always rejected",
 "Each instruction acts only on the accounts derived from the delegated account, validator, program, wallet or protocol it names: replacing the record, metadata, commit accounts, buffers, vaults, config, authority data or system program by any other account (another entity's genuine one, a forged copy, or an unrelated one) makes it fail with no effect.",
 ["inputs"],"all instructions, all account positions, all substitutes: other entities' accounts, attacker-made copies with identical content, uninitialized or program accounts",
 "Tests substitute a handful of accounts in a handful of instructions; the guarantee is the full cross product, in every reachable state.",
 [PR+"utils/loaders.rs"]+[PR+f for f in ("delegate.rs","commit_state.rs","finalize.rs","undelegate.rs","whitelist_validator_for_program.rs")],
 [("load_pda, load_initialized_pda, load_uninitialized_pda, load_program",PR+"utils/loaders.rs")],
 [],OBS)

prop("C22","Operations on one account or validator never disturb another",
 "An instruction changes nothing outside the accounts of the delegation, validator, program or escrow it names: any other delegated account, pending commit, vault, whitelist or escrow is left bit for bit unchanged. Consequently operations on distinct accounts give the same final result in whichever order they run.",
 ["histories","schedules"],"all interleavings and reorderings of operations on distinct accounts, validators, programs and escrows",
 "Tests never have more than one delegated account in play, so cross-talk is invisible to them.",
 ["src/pda.rs"]+[PR+f for f in ("commit_state.rs","finalize.rs","undelegate.rs")],
 [("per-entity PDA derivation","src/pda.rs")],
 [REC,META,CREC,CST,VV,CFG],OBS)

prop("C23","Committing from a buffer is equivalent to committing the same data directly",
 "Given the same state, committing data supplied through a buffer account has the same outcome and the same resulting accounts as committing the same bytes in the instruction, for every outcome including outdated, refused and failed ones. The buffer itself is never modified and may be any account holding the bytes.",
 ["inputs","histories"],"all states, arguments, data contents and buffer accounts",
 "Tests cover one happy path of each variant; equivalence is a relation over all inputs and states.",
 [PR+"commit_state_from_buffer.rs",PR+"commit_state.rs"],
 [("shared internal commit",PR+"commit_state_from_buffer.rs")],
 [CST,CREC],OBS)

prop("C24","Bundling steps in one transaction equals running them one after another",
 "A transaction bundling several steps succeeds exactly when each step would succeed in sequence and then gives the same result; if any step fails nothing changes. Finalizing when nothing is pending, like an outdated commit, succeeds without effect so that the rest of the bundle is not lost, but a finalize with mismatched or partially present commit accounts is not skipped. Accounts closed inside a bundle leave no residue: they may be re-created in the same transaction and are gone afterwards.",
 ["schedules","histories"],"all bundles of up to several instructions including close-then-recreate of the same account, from all reachable states",
 "Tests send one or two instructions per transaction; closed-account residue and partial failure only show in specific bundles.",
 [PR+"finalize.rs",PR+"commit_state.rs",PR+"undelegate.rs",PR+"utils/pda.rs"],
 [("skip conditions",PR+"finalize.rs"),("close_pda reassigns and truncates",PR+"utils/pda.rs")],
 [CST,CREC],OBS)

prop("C25","Pre-funding any derived address cannot block or distort the protocol",
 "Anyone sending lamports in advance to a not-yet-created record, metadata, commit, buffer, vault, whitelist or escrow address never makes the later legitimate step fail. The created account is then rent-exempt with the same content as without the donation, and the payer pays only what is missing.",
 ["inputs","histories"],"all derived addresses, all donated amounts (including below, at and above rent exemption), at any time before creation",
 "Tests start from empty addresses; the griefing path is only taken with prior balances no test sets up.",
 [PR+"utils/pda.rs"],
 [("create_pda non-zero balance branch",PR+"utils/pda.rs")],
 [],OBS)

prop("C26","The published instruction builders produce instructions the program accepts",
 "For every instruction, what the public builder returns for given inputs encodes the intended instruction, addresses and arguments, with the privileges the step needs and no signature beyond the documented ones, so that submitting it in a state where the step is legal succeeds with the intended effect, whoever pays the transaction fee. The published address functions are deterministic, agree with the addresses the program uses and never coincide for different purposes or different inputs.",
 ["inputs"],"all builder inputs (keys, seeds, indexes, amounts, slots, data) and all states in which the step is legal",
 "Tests use builders with the validator as fee payer, which hides missing privileges, and only for the inputs they happen to use.",
 ["src/instruction_builder/mod.rs","src/pda.rs","src/discriminator.rs"],
 [("builders","src/instruction_builder/"),("address functions","src/pda.rs")],
 [],["built instruction (program, accounts, data)"]+OBS)

prop("C27","Stored state and arguments round-trip and keep their published byte layout",
 "Every delegation record, metadata, commit record, whitelist and instruction argument encodes to the published byte layout (8-byte type tag followed by fixed little-endian fields or length-prefixed sequences) and decodes back to the same value. Decoding bytes of any other type tag, wrong length or malformed content gives an error, never a wrong value or a crash.",
 ["inputs"],"all values of every stored or transmitted type, and all byte strings",
 "Tests round-trip single values; layout and rejection must hold for every value and every byte string since clients decode these accounts directly.",
 ["src/state/delegation_record.rs","src/state/delegation_metadata.rs","src/state/commit_record.rs","src/state/program_config.rs","src/state/utils/try_from_bytes.rs","src/state/utils/to_bytes.rs","src/args/mod.rs"],
 [("to/try_from bytes with discriminator","src/state/utils/")],
 [],["encoded bytes","decode results"])

prop("C28","Malformed instructions are rejected without effect",
 "Instruction data that is too short, names no known instruction, or whose arguments are truncated, have trailing bytes or are otherwise malformed, and account lists with missing or extra accounts, are rejected with no effect. Each published instruction number keeps selecting its own instruction, and no input makes the program act as a different one.",
 ["inputs"],"all byte strings as instruction data and all account lists, in all reachable states",
 "Tests send only well-formed instructions; rejection has to hold for every byte string and account list.",
 ["src/lib.rs","src/discriminator.rs","src/args/mod.rs"],
 [("dispatch","src/lib.rs"),("strict argument decoding","src/args/")],
 [],OBS)

with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
