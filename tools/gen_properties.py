#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles/statements is this table)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state="", observe="public trait and struct methods only", ):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": "none"}
    if state: a["state"] = [{"name": s.strip(), "meaning": "state the property is about", "where": files[0]} for s in state.split(";")]
    a["observe_at"] = [observe] if isinstance(observe, str) else observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C="common/src/"; A="account_storage/src/"; T="token_account_storage/src/"; D="accounts_on_demand/src/"; S="simulate_from_snapshot/src/snapshot_utils/"

add("C01","Compression is invisible",
 "For every byte string and every compression method and level (none, lz4, zstd), Data::new followed by data(), len() and is_empty() gives back exactly the original bytes and length, also after a serde copy. Account::from_solana_account followed by to_solana_account returns an equal account, and filters evaluated on an AccountData give the same answer whatever the compression. AccountData values equal their clones and serde copies, and differ as soon as key, slot or any field or byte of the account does.",
 ["inputs"],"all payloads up to account size, all codecs and levels","tests store a few random payloads with one or two codecs",
 [C+"account_data.rs"],[("Data::new / Data::data / Data::len","common/src/account_data.rs"),("Account::from_solana_account / to_solana_account","common/src/account_data.rs"),("AccountData::allows","common/src/account_data.rs"),("AccountData::eq","common/src/account_data.rs")])
add("C02","Datasize and memcmp filters mean what the RPC says",
 "AccountFilterType::allows (and MemcmpFilter::bytes_match, AccountData::allows) is true exactly when the data has the given size / carries the given bytes at the given offset, for every offset up to u64::MAX, every pattern length and every pattern encoding, without panicking. Conversion to RpcFilterType (get_rpc_filter) and back keeps that meaning, and an RPC memcmp whose pattern cannot be decoded matches nothing.",
 ["inputs"],"all conditions x all account data","tests use a handful of offsets that lie inside the data",
 [C+"account_filter.rs",C+"account_data.rs"],[("MemcmpFilter::bytes_match","common/src/account_filter.rs"),("AccountFilterType::allows","common/src/account_filter.rs"),("get_rpc_filter / From<&RpcFilterType>","common/src/account_filter.rs")])
add("C03","Filter configuration JSON round-trips and bad JSON is an error",
 "Every AccountFilter list serialized to JSON parses back to an equal list. Parsing never panics: a text with a part of the wrong JSON type, an invalid public key, a condition that is none, a pattern that cannot be decoded, or a cut is an error wherever in the list that part is, and every list that is accepted can be re-serialized, re-parsed to an equal list and used for matching.",
 ["inputs"],"all filter lists; all JSON documents near a valid one","tests parse two fixed valid documents",
 [C+"account_filter.rs"],[("Serialize/Deserialize for AccountFilter","common/src/account_filter.rs")])
add("C04","Filter stores accept exactly the accounts their filters describe",
 "SimpleFilterStore and MutableFilterStore accept an account exactly when it is listed by key in some added filter, or its owner is a program added without conditions, or it meets all conditions of one of the condition lists added for its owner program. This holds for any set of filters in any encoding, added in any order over any number of calls. Filters added to a MutableFilterStore by several threads at the same time all take effect, and a concurrent check only sees filters that were added.",
 ["inputs","histories","schedules"],"all filter sets, orders of addition, threads and accounts","tests add at most a few filters and check a few accounts",
 [C+"simple_filter_store.rs",C+"mutable_filter_store.rs"],[("add_account_filter","common/src/simple_filter_store.rs"),("satisfies_filter","common/src/simple_filter_store.rs"),("MutableFilterStore","common/src/mutable_filter_store.rs")])
add("C05","contains_filter is sound and complete for added filters",
 "If contains_filter(q) is true then every account in the scope of q (its listed accounts; accounts of its program meeting its conditions) is accepted by the store. If a filter was added, then the same filter and every narrower one (more conditions, other pattern encoding, other order, duplicates) is contained, no matter what else was added before or after.",
 ["inputs","histories"],"all stored filter sets and queries","tests check one program with filters added in one spelling",
 [C+"simple_filter_store.rs"],[("contains_filter_internal","common/src/simple_filter_store.rs"),("byte normalisation in add_account_filter","common/src/simple_filter_store.rs")])
add("C06","ExceptFilterStore is the exact complement",
 "An account is accepted by ExceptFilterStore exactly when a SimpleFilterStore holding the same filters rejects it, so two stores configured this way partition all accounts. contains_filter of a query is true exactly when none of its listed accounts is excepted by key and no exception names its program, so a query that is partly excepted is not reported as held.",
 ["inputs"],"all exception sets, accounts and queries","the only test uses two program-wide exceptions",
 [C+"except_filter_store.rs"],[("ExceptFilterStore","common/src/except_filter_store.rs")])

add("S01","Reads at a commitment return the newest state that reached it",
 "For every well-formed feed (account updates and slot notifications over a fork tree, with late, duplicate, skipped and out-of-order messages) InmemoryAccountStore::get_account at Confirmed/Finalized returns the update with the highest (slot, write version) among those whose slot, directly or as an ancestor of a notified slot, has reached that commitment. At Processed it returns the update with the highest (slot, write version) received, leaving out states of slots that were left on another fork when a finalization made that certain. update_account returns true for an update that becomes the newest state of its account, and false for one that is not admitted or is older than the stored state of the same slot.",
 ["histories","schedules"],"all feeds over all fork trees, checked after every step","tests replay a few straight-line chains; promotion depends on ancestry, lateness and message order",
 [A+"inmemory_account_store.rs",A+"account_data_by_commitment.rs"],[("process_slot_data ancestor walk","account_storage/src/inmemory_account_store.rs"),("update_account / add_account_index_to_slot_status","account_storage/src/inmemory_account_store.rs"),("promote_slot_commitment","account_storage/src/account_data_by_commitment.rs")],
 state="slots_status; accounts_store; pubkey_to_account_index")
add("S02","Reads never go back in time",
 "For any sequence of updates and slot notifications, including stale, duplicate, contradictory and lower-commitment ones, successive reads of an account at one commitment never return a state with a lower (slot, write version) than an earlier read at Confirmed or Finalized, and at any moment the Processed state is at least as new as the Confirmed one, which is at least as new as the Finalized one. A slot that reached a commitment keeps it.",
 ["histories"],"all message sequences, well-formed or not","regressions need a stale or repeated message after a newer one",
 [A+"inmemory_account_store.rs",A+"account_data_by_commitment.rs"],[("SlotStatus.commitment","account_storage/src/inmemory_account_store.rs"),("AccountDataByCommitment::update","account_storage/src/account_data_by_commitment.rs")])
add("S03","States from abandoned forks are not confirmed or finalized",
 "A state written in a slot that is neither a confirmed (finalized) slot nor an ancestor of one is never returned at Confirmed (Finalized) by get_account or get_program_accounts, is not reported by process_slot_data as promoted, and never enters a snapshot. Finalizing another fork does not change that.",
 ["histories"],"all fork trees with competing writes to the same accounts","tests have no forks",
 [A+"inmemory_account_store.rs",T+"inmemory_token_storage.rs"],[("process_slot_data ancestor walk","account_storage/src/inmemory_account_store.rs"),("ProcessedAccountStore::finalize / get_confirmed_accounts","token_account_storage/src/inmemory_token_storage.rs")])
add("S04","Program queries agree with account reads",
 "At every moment and commitment, InmemoryAccountStore::get_program_accounts(program, filters) returns exactly the accounts for which get_account at that commitment returns a live state owned by the program and meeting all filters, each once and with that state. A query that the configured filters do not cover returns ConfigDoesnotContainRequiredFilters.",
 ["histories","inputs"],"all histories with creations, owner changes, deletions and re-creations; all covered queries","index upkeep bugs need owner changes combined with commitments and order",
 [A+"inmemory_account_store.rs",A+"account_data_by_commitment.rs"],[("accounts_by_owner / update_owner_delete_if_necessary","account_storage/src/inmemory_account_store.rs"),("get_program_accounts","account_storage/src/inmemory_account_store.rs"),("get_account_data_filtered","account_storage/src/account_data_by_commitment.rs")])
add("S05","Deleted and out-of-scope accounts leave, and only in-scope accounts enter",
 "An account that never matched the filters is never stored. A state with zero lamports is never returned by any read; once a deletion, or an owner change out of the filters' scope, is the newest state and is finalized, the account is gone at every commitment and out-of-scope updates no longer bring it back, while a state newer than the finalized deletion stays readable.",
 ["histories"],"all orders of creation, owner change, deletion, re-creation, promotion","tests cover two fixed scripts",
 [A+"inmemory_account_store.rs"],[("update_account admission","account_storage/src/inmemory_account_store.rs"),("update_owner_delete_if_necessary","account_storage/src/inmemory_account_store.rs")])
add("S06","Slot notifications report exactly the promoted accounts",
 "process_slot_data at Confirmed or Finalized returns exactly the accounts whose state at that commitment advanced because of the call, each once, with the state it advanced to (including deletions, as zero-lamport states). Repeating a notification or sending a Processed one returns nothing.",
 ["histories"],"all feeds over all fork trees","tests ignore or check a single notification",
 [A+"inmemory_account_store.rs"],[("process_slot_data result","account_storage/src/inmemory_account_store.rs"),("promote_slot_commitment result","account_storage/src/account_data_by_commitment.rs")])
add("S07","Snapshots carry the finalized state and never overwrite newer data",
 "A snapshot created for a program and loaded into an empty store with the same filters makes every finalized account of the program readable at all commitments with identical content, slot and write version. Loading a snapshot (also twice, or an older one) into a store in use never replaces a newer state, and bytes that are not a snapshot return an error without changing the store and without panicking.",
 ["histories","inputs"],"all store contents, target stores and corrupted snapshots","the test round-trips one store once",
 [A+"inmemory_account_store.rs"],[("create_snapshot / load_from_snapshot","account_storage/src/inmemory_account_store.rs"),("initilize_or_update_account","account_storage/src/inmemory_account_store.rs")])
add("S08","AccountDataByCommitment keeps the newest state per commitment and prunes",
 "For any sequence of update and promote_slot_commitment calls on one account, the confirmed and finalized states are the newest (slot, write version) states that reached that commitment, each slot keeps its highest write version, and get_account_data_filtered equals get_account_data followed by the filters. After finalizing a slot no processed state older than that slot remains unless it is the only one, and none remains that is older than an update at Finalized which became the finalized state.",
 ["histories","inputs"],"all call sequences on one account, all filters and codecs","tests run fixed two- or three-step sequences",
 [A+"account_data_by_commitment.rs"],[("update","account_storage/src/account_data_by_commitment.rs"),("promote_slot_commitment","account_storage/src/account_data_by_commitment.rs"),("get_account_data_filtered","account_storage/src/account_data_by_commitment.rs")])
add("S09","Concurrent updates, notifications and reads neither deadlock nor lose states",
 "When updates, slot notifications, reads and program queries run in parallel on InmemoryAccountStore, every call returns, and once all calls returned the store is in the state that the same feed produces one message at a time. While they run, each read returns a state that was actually written, never older at Confirmed/Finalized than one already returned to the same reader.",
 ["schedules"],"all interleavings of concurrent calls","tests are single threaded",
 [A+"inmemory_account_store.rs"],[("lock order of accounts_store and pubkey_to_account_index","account_storage/src/inmemory_account_store.rs"),("maybe_update_slot_status","account_storage/src/inmemory_account_store.rs")])
add("S10","States of abandoned forks leave Processed reads once another fork is finalized",
 "When process_slot_data finalizes a slot whose announced ancestry reaches a slot finalized before, states written in slots between the two that are not on that chain (and were never reported as confirmed) are no longer returned at Processed by get_account or get_program_accounts: an account is read at its newest remaining state, and an account known from abandoned slots only is gone until it is updated again. States on the chain and in slots after it stay.",
 ["histories"],"all fork trees with writes on competing forks and finalizations in any order","tests have no forks; the stale state only shows for accounts not written again on the surviving fork",
 [A+"inmemory_account_store.rs",A+"account_data_by_commitment.rs"],[("process_slot_data finalization","account_storage/src/inmemory_account_store.rs"),("update_owner_delete_if_necessary / should_be_removed","account_storage/src/inmemory_account_store.rs"),("remove_abandoned_state","account_storage/src/account_data_by_commitment.rs")],
 state="slots_status; accounts_by_owner; pubkey_to_account_index")

add("S11","The account store holds no more memory as slots go by",
 "While the same accounts (none of them deleted) are updated slot after slot, on chains with abandoned forks, late and repeated messages, and every slot is finalized sooner or later, InmemoryAccountStore releases what it no longer needs: records of slots, superseded and abandoned states, states that arrived as Finalized or repeatedly, and index entries of owners and account places. What it holds after a finalization does not grow with the number of slots processed, reads or snapshots taken.",
 ["histories"],"all periodic histories of messages, thousands of slots long","tests process a handful of slots and look at answers only",
 [A+"inmemory_account_store.rs",A+"account_data_by_commitment.rs"],[("process_slot_data / slots_status","account_storage/src/inmemory_account_store.rs"),("update / promote_slot_commitment","account_storage/src/account_data_by_commitment.rs"),("update_owner_delete_if_necessary","account_storage/src/inmemory_account_store.rs")],
 state="slots_status; processed_accounts; accounts_by_owner")

add("S12","The account store's gauge counts the accounts it holds",
 "After every account update, slot notification and snapshot load the exported metric of accounts in memory (lite_accounts_accounts_in_memory) equals the number of accounts that the InmemoryAccountStores of the process hold, that is the keys for which account_store_contains_key is true. Accounts that are removed because a deletion or an owner change was finalized, or because all their states were abandoned, are no longer counted, and updates that are not admitted never are; concurrent callers do not make it drift.",
 ["histories","schedules"],"all feeds with deletions, owner changes, re-creations and snapshot loads, and parallel ones","no test reads a metric, and drift only shows over a history with removals",
 [A+"inmemory_account_store.rs"],[("ACCOUNT_STORED_IN_MEMORY","account_storage/src/inmemory_account_store.rs"),("update_account","account_storage/src/inmemory_account_store.rs"),("process_slot_data: accounts_to_remove","account_storage/src/inmemory_account_store.rs")])

add("R01","Storage dispatch loses no account",
 "StorageByProgramId returns for every account and commitment what the store that accepted it returns, whichever store that is; each update is applied by one store, program queries and snapshots go to the store of that program (or the default), and slot notifications reach every store with their results concatenated.",
 ["histories","inputs"],"all dispatch maps and histories over several stores","there is no test for this type",
 [A+"storage_by_program_id.rs"],[("StorageByProgramId::get_account","account_storage/src/storage_by_program_id.rs"),("update_account / initilize_or_update_account","account_storage/src/storage_by_program_id.rs"),("process_slot_data","account_storage/src/storage_by_program_id.rs")])

add("T01","Packed token accounts round-trip",
 "TokenAccount::from_bytes(to_bytes(a)) equals a for every combination of program, state, deletion flag and optional fields, and get_pubkey_from_binary, get_owner_from_binary and get_mint_index_from_binary read the same fields from the packed form. Different accounts have different packed forms.",
 ["inputs"],"all token accounts","the test only uses the Initialized state",
 [T+"account_types.rs"],[("TokenAccount::to_bytes / from_bytes","token_account_storage/src/account_types.rs")])
add("T02","Token program accounts survive decoding and re-encoding",
 "Every valid SPL Token and Token-2022 account, mint and multisig (including Token-2022 accounts and mints with extensions) decoded by get_token_program_account_type and converted back to an account carries byte-identical data, the same owner program and public key. Data that is no token program account, of any length and content, is rejected without panicking; a zero-lamport or foreign-owned account is classified as deleted.",
 ["inputs"],"all valid account images and arbitrary bytes","tests use unextended initialized accounts",
 [T+"token_program_utils.rs"],[("get_token_program_account_type","token_account_storage/src/token_program_utils.rs"),("token_program_account_to_solana_account","token_account_storage/src/token_program_utils.rs")])
add("T03","The token account table behaves as a map keyed by full public key",
 "InmemoryTokenAccountStorage behaves as a map from public key to token account with stable indexes: save_or_update, contains, get_by_pubkey, get_by_index, delete and create_snapshot agree with such a map for any sequence of calls. Accounts whose keys share their first four bytes never shadow, lose or expose one another.",
 ["histories","inputs"],"all call sequences, with dense key prefix collisions","random keys never collide on 4 bytes in a test",
 [T+"inmemory_token_account_storage.rs",C+"pubkey_container_utils.rs"],[("pubkey_to_index buckets","token_account_storage/src/inmemory_token_account_storage.rs"),("PartialPubkey","common/src/pubkey_container_utils.rs")])
add("T04","Token storage reads follow commitments and forks",
 "For every well-formed feed TokenProgramAccountsStorage::get_account at Finalized returns the newest state of the account on the finalized chain, at Confirmed the newest state on the chain of the highest confirmed slot, at Processed the state of the highest slot (falling back to the confirmed chain), each time with the exact account data. Token accounts are readable whether or not their mint has been seen, and update_account returns true for a state that is the newest of its account in its slot and false for one that is superseded there, and no sequence of updates, notifications and queries panics.",
 ["histories","schedules"],"all feeds over fork trees with accounts, mints, multisigs of both token programs","tests use straight chains and mints that are always finalized first",
 [T+"inmemory_token_storage.rs",T+"token_program_utils.rs"],[("ProcessedAccountStore","token_account_storage/src/inmemory_token_storage.rs"),("process_slot_data / add_account_finalized","token_account_storage/src/inmemory_token_storage.rs")],
 state="processed_slot_accounts; mints_by_index; token_accounts_storage; confirmed_slot; finalized_slot")
add("T05","Token program queries return exactly the matching accounts",
 "TokenProgramAccountsStorage::get_program_accounts at Finalized by owner, by mint, by owner and mint, or over all mints returns exactly the finalized accounts of the queried program that meet every given filter, each once, whatever owner or mint changes happened before. At Processed and Confirmed every returned account meets the filters at that commitment and every account that matches both there and at Finalized is returned; unsupported or unknown queries give an error or an empty list, never a panic.",
 ["histories","inputs"],"all histories and all query shapes including unknown keys and foreign filters","tests query one mint and one owner",
 [T+"inmemory_token_storage.rs",T+"token_program_utils.rs"],[("get_program_accounts_finalized","token_account_storage/src/inmemory_token_storage.rs"),("get_spl_token_owner_mint_filter","token_account_storage/src/token_program_utils.rs"),("account_by_owner_pubkey / accounts_index_by_mint","token_account_storage/src/inmemory_token_storage.rs")])
add("T06","Closed token program accounts disappear and nothing else does",
 "When a token account, mint or multisig is closed (zero lamports or moved to another program) the closing is accepted even if the account exists only in unfinalized slots, the account is not returned at a commitment from the slot where the closing is visible there, and it is absent from queries and snapshots once finalized. Closing one account leaves every other account readable, including token accounts of a closed mint and accounts with similar keys, and an account re-created later is readable again.",
 ["histories"],"all orders of creation, closing, re-creation and promotion for the three account kinds","tests delete one finalized token account",
 [T+"inmemory_token_storage.rs",T+"inmemory_token_account_storage.rs"],[("TokenProgramAccountType::Deleted branch","token_account_storage/src/inmemory_token_storage.rs"),("is_token_program_account","token_account_storage/src/inmemory_token_storage.rs"),("InmemoryTokenAccountStorage::delete","token_account_storage/src/inmemory_token_account_storage.rs")])
add("T07","Token snapshots round-trip into fresh and populated stores",
 "A token snapshot loaded into an empty store, or into a store that already holds other (or overlapping older) mints and accounts in any order of arrival, makes every account, mint and multisig of the snapshot's program readable with identical data and findable by owner and mint queries, and leaves unrelated accounts unchanged. Bytes that are not a snapshot return an error without panicking.",
 ["histories","inputs"],"all source and target store contents (any mint index assignment) and corrupted snapshots","the test loads one snapshot into an empty store",
 [T+"inmemory_token_storage.rs"],[("create_snapshot / load_from_snapshot mint remapping","token_account_storage/src/inmemory_token_storage.rs")])
add("T08","Finalization in the token storage is not observable half-way",
 "While process_slot_data(Finalized) or updates run, a concurrent reader of TokenProgramAccountsStorage at any commitment sees for each account the state before or after the call, never an older state and never a missing account, also when the account changes its type. All concurrent calls return (no deadlock).",
 ["schedules"],"all points at which a reader can interleave with finalization","needs a reader between two steps of one call",
 [T+"inmemory_token_storage.rs"],[("process_slot_data Finalized: move from processed to main storage","token_account_storage/src/inmemory_token_storage.rs")])

add("T09","Token slot notifications report the accounts that changed",
 "TokenProgramAccountsStorage::process_slot_data at Confirmed returns exactly the live states written in that slot, and at Finalized the newest state of every account whose finalized state changed by the call, each once, with its data and slot. Closed accounts are left out, an account changed only on an abandoned fork is not reported, and a Processed or repeated finalized notification returns nothing.",
 ["histories","inputs"],"all feeds of updates and notifications over fork trees","the tests look at single slots",
 [T+"inmemory_token_storage.rs"],[("ProcessedAccountStore::finalize and get_processed_for_slot","token_account_storage/src/inmemory_token_storage.rs")])

add("T10","Token storage gauges count what it holds",
 "After every message and snapshot load the exported metrics agree with the contents of TokenProgramAccountsStorage: the gauge of processed accounts equals the number of account states in unfinalized slots, the gauge of mints the number of finalized mints, and the gauge of stored token accounts less that of deleted ones the number of finalized token accounts. States dropped with an abandoned fork are no longer counted.",
 ["histories"],"all feeds over fork trees, closings, type changes and snapshot loads","no test reads a metric, and drift only shows over a long history with forks",
 [T+"inmemory_token_storage.rs",T+"inmemory_token_account_storage.rs"],[("TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS / TOKEN_MINTS_IN_MEMORY","token_account_storage/src/inmemory_token_storage.rs"),("TOKEN_ACCOUNT_STORED_IN_MEMORY / TOKEN_ACCOUNT_DELETED_IN_MEMORY","token_account_storage/src/inmemory_token_account_storage.rs")])
add("T11","A token snapshot shows one finalized state",
 "A snapshot created by TokenProgramAccountsStorage while updates and slot notifications are processed by another thread loads into an empty storage and contains exactly the accounts, mints and multisigs of its program as they were finalized before or after one of the messages processed meanwhile, never a part of a slot's finalization. Snapshots taken one after the other never go back, and no call blocks for good.",
 ["schedules"],"all points at which a snapshot can be taken while messages are processed","needs a snapshot between two steps of one finalization",
 [T+"inmemory_token_storage.rs"],[("create_snapshot","token_account_storage/src/inmemory_token_storage.rs"),("process_slot_data Finalized: move from processed to main storage","token_account_storage/src/inmemory_token_storage.rs")])

add("T12","The token storage holds no more memory as slots go by",
 "While the same token accounts, mints and multisigs (none of them closed) are updated slot after slot, on chains with abandoned forks, with owners and mints of token accounts changing back and forth, and every slot is finalized sooner or later, TokenProgramAccountsStorage releases what it no longer needs: records of slots, unfinalized states and entries of the indexes by owner and mint. What it holds after a finalization does not grow with the number of slots processed, reads or snapshots taken.",
 ["histories"],"all periodic histories of messages, thousands of slots long","tests process a handful of slots and look at answers only",
 [T+"inmemory_token_storage.rs"],[("process_slot_data / slots_status","token_account_storage/src/inmemory_token_storage.rs"),("save_token_account","token_account_storage/src/inmemory_token_storage.rs")],
 state="slots_status; processed_account; account_by_owner_pubkey; accounts_index_by_mint")

add("D01","On-demand reads load missing data once and serve it",
 "AccountsOnDemand answers get_account and get_program_accounts with what the source holds: if the data is not yet tracked it subscribes and loads a snapshot for exactly that account or program filter, registers the filter so that the storage admits it and later updates, and then answers from storage. Data that is already tracked or covered by an earlier load is served without contacting the source again, also when the account does not exist.",
 ["histories","inputs"],"all sequences of queries, updates and slot notifications over all source contents","there is no test for this crate",
 [D+"accounts_on_demand.rs"],[("get_account loading path","accounts_on_demand/src/accounts_on_demand.rs"),("get_program_accounts loading path","accounts_on_demand/src/accounts_on_demand.rs")])
add("D02","A failed load is an error now and a retry later",
 "If subscribing or loading fails, AccountsOnDemand returns ErrorSubscribingAccount or ErrorCreatingSnapshot promptly, and a later query for the same or a covered account or program contacts the source again. It never answers Ok with a missing account or an incomplete program list because of an earlier failure, and never leaves later callers waiting for a load that is not running, also when the source panicked.",
 ["histories"],"all sequences of queries with any pattern of source failures","needs injected faults",
 [D+"accounts_on_demand.rs"],[("error paths of the loading blocks","accounts_on_demand/src/accounts_on_demand.rs"),("accounts_in_loading / gpa_in_loading","accounts_on_demand/src/accounts_on_demand.rs")])
add("D03","Concurrent on-demand queries wait for the load and share it",
 "A query issued while the same account or program filter is being loaded does not start a second load and does not return before the load is complete: it returns the loaded data (or an error if the load failed). Queries and updates for other accounts are not blocked by a load in progress.",
 ["schedules"],"queries issued at every point of a running load","needs a second thread inside the load",
 [D+"accounts_on_demand.rs"],[("Condvar wait on loading entries","accounts_on_demand/src/accounts_on_demand.rs")])

add("D04","On-demand data and the commitment stream compose",
 "With AccountsOnDemand in front of InmemoryAccountStore and sharing its MutableFilterStore, reads at every commitment show the chain, whenever a filter is loaded and whatever updates and slot notifications arrive before, during and after the load: get_account returns the account's newest state at that commitment, get_program_accounts exactly the accounts whose state at that commitment belongs to the program and meets the filters, including accounts that were already tracked for another reason when the program got tracked, and a snapshot of a program loaded as a whole holds exactly its finalized accounts.",
 ["histories","schedules"],"all histories of updates, notifications and queries on a chain, and all points of a load at which messages overtake it","filters added at run time change what the storage has to index and admit; no test adds one to a storage in use",
 [D+"accounts_on_demand.rs","account_storage/src/inmemory_account_store.rs",C+"mutable_filter_store.rs"],[("index_account_owner","account_storage/src/inmemory_account_store.rs"),("load","accounts_on_demand/src/accounts_on_demand.rs"),("add_account_filters","common/src/mutable_filter_store.rs")])

add("D05","Repeated queries and retried loads do not pile up",
 "Asking AccountsOnDemand the same questions again and again does not make it hold more and more memory, neither queries served from storage nor queries that fail at the source every time and are retried: filters, locks and records of loads are kept once per account or program filter, not once per query.",
 ["histories"],"all lists of queries, with any pattern of failures at the source, repeated hundreds of times","there is no test for this crate",
 [D+"accounts_on_demand.rs",C+"mutable_filter_store.rs",C+"simple_filter_store.rs"],[("add_account_filters","common/src/simple_filter_store.rs"),("accounts_in_loading / gpa_in_loading","accounts_on_demand/src/accounts_on_demand.rs")])

add("D06","The on-demand storage is transparent for the stream",
 "For data that is tracked already, AccountsOnDemand in front of a store behaves as the store itself: update_account, initilize_or_update_account, process_slot_data, create_snapshot and load_from_snapshot have the same effect and return the same result (acceptance, reported accounts, errors) as on a plain store with the same filters that gets the same calls, at every commitment, and do not contact the source.",
 ["histories"],"all histories of updates, notifications and snapshots","there is no test for this crate",
 [D+"accounts_on_demand.rs"],[("impl AccountStorageInterface for AccountsOnDemand","accounts_on_demand/src/accounts_on_demand.rs")])

add("A01","Append-vec parsing is exact and bounded",
 "Iterating an append vec built from well-formed storage bytes yields every stored account once, in order, with its exact fields and data, both from a file and from a reader. For any other bytes or any length field, iteration ends without panicking or reading outside the recorded length, and a reader that delivers fewer bytes than recorded is an error rather than zero-filled accounts.",
 ["inputs","fault_sequences"],"all account lists, truncations, corruptions and short reads","the crate has no tests and does not build in this sandbox",
 [S+"append_vec.rs",S+"mod.rs"],[("AppendVec::get_account / get_slice / get_type","simulate_from_snapshot/src/snapshot_utils/append_vec.rs"),("append_vec_iter","simulate_from_snapshot/src/snapshot_utils/mod.rs"),("new_from_reader / new_from_file","simulate_from_snapshot/src/snapshot_utils/append_vec.rs")])
add("A02","Snapshot extraction delivers every account file of the manifest",
 "For every snapshot archive (.tar.zst) or unpacked snapshot directory whose manifest lists its account files, the extractor yields one append vec per account file with the slot and length of the manifest, hence every account of the snapshot, also through the parallel consumer. Archives that are truncated, lack a manifest, lack account files the manifest lists, or contain account files the manifest does not list yield an error for them, never a panic or a silently missing file.",
 ["inputs","fault_sequences"],"all snapshot layouts and truncations","the crate has no tests and does not build in this sandbox",
 [S+"archived.rs",S+"unpacked.rs",S+"parallel.rs",S+"mod.rs"],[("ArchiveSnapshotExtractor","simulate_from_snapshot/src/snapshot_utils/archived.rs"),("UnpackedSnapshotExtractor","simulate_from_snapshot/src/snapshot_utils/unpacked.rs"),("par_iter_append_vecs","simulate_from_snapshot/src/snapshot_utils/parallel.rs")])

add("A03","RPC answers carry exactly what the storage holds",
 "RpcServerImpl answers getAccountInfo, getProgramAccounts and getSnapshot with exactly what the storage returns for the requested key, program, commitment (finalized if none is given) and filters in any encoding: each account once with its lamports, owner, executable flag, rent epoch, size and data (whole or the requested slice, in the requested encoding), the snapshot's bytes, and as context slot that of the newest account in the answer. getProgramAccounts with context refuses a minContextSlot beyond that slot; invalid keys, unsupported filters and storage errors are errors, never a panic and never an answer with other accounts.",
 ["inputs"],"all storage contents, configurations and filters, including malformed ones","the crate has no tests and does not build in this sandbox",
 ["simulate_from_snapshot/src/rpc_server.rs","common/src/account_data.rs",C+"account_filter.rs"],[("get_program_accounts / get_account_info / get_snapshot","simulate_from_snapshot/src/rpc_server.rs")])
add("A04","The simulator serves its snapshot and the stream on top of it",
 "simulate_from_snapshot serves over RPC the token program accounts, mints and multisigs of the snapshot archive it is started with, in their newest stored state, and nothing of other programs; each account update and slot notification of the geyser stream changes the answers at every commitment as the token storage's own guarantees say, whether it arrives while the snapshot is loaded or after it, finalized data appears in getSnapshot, and no account content of a complete archive and no message makes it panic, stop or hang.",
 ["inputs","histories"],"all archives of token accounts and message histories","needs a snapshot archive and a stream",
 ["simulate_from_snapshot/src/main.rs","simulate_from_snapshot/src/rpc_server.rs",T+"inmemory_token_storage.rs"],[("main","simulate_from_snapshot/src/main.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
