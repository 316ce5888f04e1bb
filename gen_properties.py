#!/usr/bin/env python3
# writes properties.jsonl (one JSON object per line)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"internal state the property depends on"}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
AS="account_storage/src/inmemory_account_store.rs"; AC="account_storage/src/account_data_by_commitment.rs"
SP="account_storage/src/storage_by_program_id.rs"
AD="common/src/account_data.rs"; AF="common/src/account_filter.rs"; SF="common/src/simple_filter_store.rs"; EF="common/src/except_filter_store.rs"; MF="common/src/mutable_filter_store.rs"
TS="token_account_storage/src/inmemory_token_storage.rs"; TA="token_account_storage/src/inmemory_token_account_storage.rs"; TT="token_account_storage/src/account_types.rs"; TU="token_account_storage/src/token_program_utils.rs"
OD="accounts_on_demand/src/accounts_on_demand.rs"
p("C01","An account read returns its state at the requested commitment level",
 "After any history of account updates and slot notifications, reading an account at processed, confirmed or finalized returns the latest write (by slot, then by write version) among the writes which have reached at least that commitment, or nothing if there is none. A write reaches a commitment because it was delivered with it, because its slot already had it when the write arrived, or because its slot or a known descendant of its slot was later promoted to it; an update call answers true exactly when the write was recorded.",
 ["histories"],"all interleavings of account updates (any slot order, write version, commitment, duplicates) and slot notifications (any order, forks, repeated, missing) for the accounts of the store",
 "Tests replay a few scripted histories in slot order; promotion errors need particular orders of updates and notifications, e.g. a write arriving after its slot was confirmed, a second write of a promoted slot, a fork, or an ancestor which was never notified.",
 [AS,AC],[("update of an account and promotion of a slot",AS+": update_account, process_slot_data"),("per commitment state of one account",AC+": update, promote_slot_commitment, get_account_data")],
 "processed states by slot, confirmed and finalized state of each account, commitment and parent of each slot","get_account at each commitment after every operation, result of update_account")
p("C02","Commitment views never go backwards and finalized never overtakes the others",
 "Once a reader has seen a state of an account at some commitment, no later delivery of an older, duplicated or out-of-order write or slot notification makes a read at that commitment return an older state (by slot, then write version), as long as the account is not finally removed. At every moment the finalized state of an account is not newer than its confirmed state and the confirmed state is not newer than its processed state.",
 ["histories"],"all delivery orders, duplications and omissions of a set of writes and slot notifications",
 "A regression needs a stale message to arrive at one specific moment (for instance after a promotion); tests only deliver in order or with one handpicked swap.",
 [AS,AC],[("ordering of writes by slot and write version",AC+": update, promote_slot_commitment"),("commitment of a slot is never lowered",AS+": process_slot_data")],
 None,"get_account at each commitment after every operation")
p("C03","A program query returns exactly the accounts of the program which match",
 "For every program and filters which the store accepts, the query at a commitment returns exactly the accounts whose state at that commitment is owned by the program, not deleted, and passes every filter, each of them once and with the same content as a direct read of the account. This also holds while owners of accounts change, change back or the change is not finalized yet.",
 ["histories"],"all histories of updates which change owner, data and lamports of several accounts, with all slot notifications in between, and all queries",
 "The owner index is only corrected on particular transitions (confirmed or finalized owner changes, deletion, recreation); tests follow a couple of them.",
 [AS,AC],[("index of accounts by owner",AS+": accounts_by_owner, update_owner_delete_if_necessary, add_account_owner"),("filtering of the state at commitment",AC+": get_account_data_filtered")],
 "owner to accounts index","get_program_accounts compared with get_account for all known accounts")
p("C04","A deleted account disappears at each commitment and can be created again",
 "A write with zero lamports hides the account from reads and program queries at exactly the commitments which the write has reached, older commitments keep the previous state. When the deletion or a change to an untracked owner is finalized the account is forgotten, unless a newer write of it exists, and a newer creation of the account is then served as any other account.",
 ["histories"],"all histories of create, delete, change of owner and recreate writes at any commitment with slot notifications in any order",
 "Deletion is handled at four places (direct finalized update, promotion, filters, index); the failing cases need a pending newer write or a recreation around the finalization.",
 [AS,AC],[("removal of finally deleted accounts",AS+": should_be_removed, remove_account, update_owner_delete_if_necessary"),("deleted accounts are not returned",AS+": get_account, get_account_with_filtering_from_lock")],
 None,"get_account and get_program_accounts at each commitment after every operation")
p("C05","Slot notifications report every account they promote exactly once",
 "A confirmed or finalized slot notification returns exactly the accounts for which the state at that commitment changes because of it, with their new state, including the ones written in ancestors which were not notified individually. The same or an older notification delivered again reports nothing and changes nothing, and the commitment of a slot is never lowered.",
 ["histories"],"all orders of slot notifications over chains and forks of slots, interleaved with updates",
 "Tests notify slots one by one in order; skipped, repeated, late and forked notifications are the cases in which ancestors are forgotten or reported twice.",
 [AS,AC],[("walk of the ancestors of the slot",AS+": process_slot_data"),("promotion of one account",AC+": promote_slot_commitment")],
 "commitment, parent and updated accounts of each slot","return value of process_slot_data compared with the difference of the views")
p("C06","A snapshot of the account store restores the same finalized state",
 "Loading a snapshot of a program into an empty store makes reads and queries of the program answer the same finalized accounts as the store it was taken from, with deleted accounts left out. Loading it into a store which already has state only adds or replaces what is newer, so newer states are never lost.",
 ["histories"],"all histories before the snapshot is taken, and all histories of the store in which it is loaded",
 "Tests snapshot one simple state; the failing cases depend on pending, deleted or moved accounts at the time of the snapshot and on the state of the target.",
 [AS,AD],[("snapshot of finalized accounts",AS+": create_snapshot, load_from_snapshot")],
 None,"get_account and get_program_accounts of both stores")
p("C07","Concurrent use of the account store is equivalent to a sequential use",
 "Updates, slot notifications, reads and queries which run concurrently terminate, and the final state at every commitment is one which some sequential order of the same calls produces (a slot notification or a query of several accounts may be interleaved with other calls between two of its accounts, but is atomic for each of them). What all callers are told about an account is explained by such an order too: nobody sees it go back to an older state, or misses it in a query although it exists before, during and after.",
 ["schedules"],"all thread interleavings at lock and atomic operations, up to a bound of preemptions, of small groups of concurrent calls",
 "Races and deadlocks between the shards of the maps, the slot table and the account locks need precise interleavings which tests never schedule.",
 [AS],[("lock order between key, accounts, account, slot table and owner index",AS+": update_account, process_slot_data, get_program_accounts, remove_account")],
 "locks of the store","results of the concurrent calls and the state after they have ended")
p("C08","Only accounts allowed by the filters are stored and served",
 "An account whose writes never satisfied the configured filters is never returned by any read, query, snapshot or slot notification, and an account whose write satisfies them is recorded. A query is refused when the configured filters do not cover it.",
 ["histories","configurations"],"all filter configurations over a small set of accounts, programs and data filters, and all histories of accounts which satisfy them or not",
 "The decision depends on the combination of filter, previous state and deletion; tests use one allow-all filter in most cases.",
 [AS,SF],[("filter check on update and query",AS+": update_account, get_program_accounts, satisfies_filters")],
 None,"update_account, get_account, get_program_accounts, create_snapshot, process_slot_data")
p("C09","Filters accept an account exactly when one of the registered filters accepts it",
 "An account is accepted when its address is listed, or when for some filter registered on its owner all the data filters of that entry match, a filter without data filters accepting all accounts of the program. The result does not depend on the order, duplication or encoding of the registered filters, and the inverted store accepts exactly the accounts which the plain store rejects.",
 ["configurations","inputs"],"all lists of filters up to a length over a small universe of addresses, programs, data filters and encodings, in all orders, against all accounts of the universe",
 "AND inside an entry, OR between the entries, replacement by allow-all and order of registration interact; tests check a few lists.",
 [SF,EF,MF],[("registration and matching of filters",SF+": add_account_filter, satisfies_filter"),("inverted store",EF),("shared store",MF)],
 None,"satisfies of the three filter stores")
p("C10","A covered query is always complete",
 "If a filter store says that it covers a query, then every account which the query could return is accepted by that store. A query which is identical to a registered filter, or which only adds conditions to it, in any order or encoding, is covered. (The inverted store judges addresses and programs independently of each other: accounts which are excluded by their address alone are not part of the guarantee for program queries.)",
 ["configurations","inputs"],"all pairs of registered filter lists and queries over a small universe, checked against all accounts of the universe",
 "It relates two functions over all configurations and accounts; single examples cannot show that no account is missed.",
 [SF,EF,MF],[("coverage of a query",SF+": contains_filter_internal"),("coverage by the inverted store",EF+": contains_filter")],
 None,"contains_filter and satisfies of the filter stores")
p("C11","Data filters match the same bytes whatever the encoding or the compression",
 "A memory filter matches exactly when the decoded bytes are found at the offset entirely inside of the account data, a size filter when the length is equal, without ever panicking. The answer is the same for the three encodings of the bytes, for every compression of the account data, and when the filter is converted from or to an RPC filter.",
 ["inputs"],"all offsets (including maximal ones), all byte strings and data up to a small length, all encodings and compressions",
 "Boundary offsets times lengths times encodings are too many for examples.",
 [AF,AD,AC],[("matching",AF+": bytes_match, allows"),("conversions",AF+": get_rpc_filter, From<&RpcFilterType>"),("filtering with compressed data",AC+": get_account_data_filtered")],
 None,"allows, AccountData::allows, get_program_accounts")
p("C12","Filter configurations survive serialisation and malformed ones are refused",
 "Every account filter is read back unchanged after being written as JSON. A malformed configuration is answered with an error and never with a panic or with a filter which is wider than what was written. (Unknown keys are ignored, and an explicit null is not specified.)",
 ["inputs"],"all filters over a small universe, and all replacements of each node of a valid document by each kind of JSON value",
 "Examples cover well formed documents; a malformed value can be at any position.",
 [AF],[("JSON form of a filter",AF+": Serialize and Deserialize of AccountFilter")],
 None,"serde_json::to_string and from_str of the filters")
p("C13","Account content is preserved by compression and conversion",
 "For every compression method and level, account data is returned bit for bit, with its exact length, also after conversion from and to the Solana account and after serialisation. Owner, lamports, executable flag and rent epoch are unchanged.",
 ["inputs"],"all data of small length over a small alphabet, runs and periodic patterns up to larger lengths, all methods and a range of levels",
 "Edge lengths (empty, incompressible, highly repetitive) times the methods are not enumerated by tests.",
 [AD],[("compression",AD+": Data::new, Data::data, Data::len"),("conversion",AD+": from_solana_account, to_solana_account")],
 None,"Data and Account public functions")
p("S01","A damaged snapshot is refused without any effect",
 "Loading a truncated snapshot into the account store or the token store returns an error and leaves all answers of the store as they were. Loading any snapshot with a damaged byte never panics, neither while loading nor in later reads, and if it is refused nothing has changed.",
 ["fault_sequences","crash_points"],"every truncation point of a snapshot, and every single byte replaced by each of several values",
 "Each cut position is a different fault; tests load intact snapshots only.",
 [AS,TS,TT],[("decoding before applying",AS+": load_from_snapshot; "+TS+": load_from_snapshot"),("decoding of a stored token account",TT+": try_from_bytes")],
 None,"load_from_snapshot and the reads after it")
p("T01","The compact form of a token account is lossless",
 "Every token account is read back unchanged from its compact form, for all combinations of program, state, deletion mark, delegate, native amount, close authority and additional data. The key, owner and mint extracted directly from the compact form are the ones of the account.",
 ["inputs"],"all combinations of the optional fields, states and programs with boundary values of amounts, indexes and data lengths",
 "The layout depends on 2^6 combinations of optional parts; the existing random test keeps the state fixed to one value.",
 [TT],[("compact form",TT+": to_bytes, from_bytes, get_*_from_binary")],
 None,"TokenAccount public functions")
p("T02","Token accounts, mints and multisigs are served as they were received",
 "A token account, mint or multisig of either token program which was received by the token store is served with the same owner and exactly the same data bytes, including the extensions of the newer program, once its mint is known. Lamports of mints and multisigs are preserved.",
 ["inputs"],"all combinations of account kind, program, state, optional fields, number of signers and extension data",
 "The store rebuilds the data from a decoded form; each optional field and size is a separate way to lose bytes.",
 [TU,TS],[("decode",TU+": get_token_program_account_type"),("encode",TU+": token_account_to_solana_account, token_mint_to_solana_account, token_multisig_to_solana_account")],
 None,"get_account and get_program_accounts at all commitments")
p("T03","The token store returns the state at the requested commitment level",
 "After any history of updates and slot notifications, reading a token account, mint or multisig at finalized returns its last finalized state, at confirmed its last write on the chain of the last confirmed slot, and at processed the newest write above the confirmed slot or else the confirmed state; deleted accounts read as absent. Stale writes and notifications never replace newer finalized states. A confirmed notification returns the accounts written in its slot, and a finalized one the accounts it has finalized, with their new state.",
 ["histories"],"all interleavings of updates (create, modify, delete; any slot, version, commitment) and slot notifications over chains with a fork",
 "Commitment views are computed by walking parents at read time; the wrong cases depend on gaps, forks, and late or repeated notifications.",
 [TS],[("unfinalized accounts by slot",TS+": ProcessedAccountStore"),("finalization",TS+": process_slot_data, finalize, add_account_finalized")],
 "unfinalized accounts by slot with parent, confirmed and finalized slot","get_account at each commitment and process_slot_data")
p("T04","Token queries by owner and by mint are exact",
 "A query of token accounts by owner, by mint or by both, and a query of mints, returns exactly the accounts which a direct read at the same commitment shows as belonging to the program and passing all the filters, each once. This also holds after accounts changed owner, were closed or recreated, and for accounts which are not finalized yet.",
 ["histories"],"all histories which create, move, close and reopen token accounts of several owners and mints, with slot notifications and all queries",
 "Two secondary indexes have to follow each change of an account; tests query after simple insertions.",
 [TS,TU],[("indexes",TS+": account_by_owner_pubkey, accounts_index_by_mint, add_account_finalized"),("query",TS+": get_program_accounts, get_program_accounts_finalized; "+TU+": get_spl_token_owner_mint_filter")],
 "owner and mint indexes","get_program_accounts compared with get_account")
p("T05","Token accounts whose addresses share a prefix stay independent",
 "Creating, updating, reading, deleting or querying a token account never changes or returns the state of another account or owner, even if their addresses begin with the same bytes. Every account stays readable under its own address only.",
 ["histories"],"all sequences of create, update, delete and read over several addresses with equal and different prefixes, same for owners",
 "Random addresses of the tests never collide on the shortened keys.",
 [TA,TS],[("shortened keys",TA+": pubkey_to_index; "+TS+": account_by_owner_pubkey")],
 "index by shortened key","storage interface and token store reads")
p("T06","A snapshot of the token store restores the same finalized state",
 "Loading a snapshot of a token program into another token store makes its accounts, mints and multisigs readable and found by queries exactly as in the store it was taken from, also if the other store already has mints, accounts or multisigs of its own. Accounts of the other program and deleted accounts are not included.",
 ["histories"],"all contents built by short histories, and all prior contents of the target store",
 "Mints are renumbered while loading, which only goes wrong for targets with other mints or for some orders.",
 [TS,TA],[("snapshot and remapping of the mints",TS+": create_snapshot, load_from_snapshot")],
 "numbering of mints","get_account and get_program_accounts of both stores")
p("T07","Concurrent use of the token store is equivalent to a sequential use",
 "Updates, slot notifications, reads and queries which run concurrently on the token store terminate, and leave a state which some sequential order of the calls produces. A reader never sees an account disappear or go back to an older state while its slot is being confirmed or finalized, a query does not miss an account which can already be read or which is just moving, and a snapshot taken meanwhile is one of a single finalized state.",
 ["schedules"],"all thread interleavings at lock and atomic operations, up to a bound of preemptions, of small groups of concurrent calls",
 "The store is made of several maps and counters without a common lock; the bad windows are a few instructions wide.",
 [TS,TA],[("finalization with concurrent readers and writers",TS+": process_slot_data, update_account, get_account"),("storage locks",TA)],
 "locks of the store","results of the concurrent calls and the state after they have ended")
p("T08","The token store never panics on any account it is given",
 "An account owned by a token program with data of any length or content is either recorded or refused, and no later read, query, notification or snapshot panics because of it. Reads and queries for accounts whose mint was never received answer normally.",
 ["inputs","histories"],"all data lengths up to beyond the largest layout with several contents and type tags, any filters, in any order relative to the mint",
 "Decoders depend on exact lengths and tags; tests only feed well formed accounts, mint first.",
 [TU,TS],[("decode",TU+": get_token_program_account_type"),("filters",TU+": get_spl_token_owner_mint_filter")],
 None,"all functions of the storage interface")
p("R01","Dispatching by program is transparent",
 "A storage which dispatches some programs to dedicated stores answers reads at each commitment, queries and notifications with the same accounts as one single store would, for any history in which the writes of each account arrive in order, also while an account moves between dispatched, default and untracked programs. A late write of an account which stays alive does not change what reads return, and a snapshot of a program is taken from and loaded into the store of the program.",
 ["histories"],"all histories of updates which keep or change the owner, with notifications, over programs with and without a dedicated store (writes of an account in order, except for reads of live accounts)",
 "The dispatch is decided from the owner of one update while the account may live in another store; tests never change owners.",
 [SP],[("dispatch",SP)],
 None,"AccountStorageInterface of the dispatching storage compared with a single store")
p("R02","An account which moves between programs is never missed by concurrent readers",
 "While updates move an account between programs which are served by different stores of a dispatching storage, and while notifications promote it, reads which run concurrently return at each commitment a state which some sequential order of the same calls shows, they never go back, and they never miss an account which exists before and after the move. Queries of one program and notifications are explained by a sequential order too, all calls terminate, and the state at the end is the one of a sequential order (writes of an account arrive in order, all those of a slot at the same commitment).",
 ["schedules"],"all thread interleavings at lock and atomic operations, up to a bound of preemptions, of updates, notifications, reads and queries on a dispatching storage with stores of their own and with shared filters",
 "An account is in none of the stores only between two calls to them; no test calls the storage from two threads.",
 [SP],[("order of the calls to the stores",SP+": update_account, get_account, process_slot_data")],
 "the stores of the programs and the default one","results of the concurrent calls and the state after they have ended")
p("R03","Account store and token stores put together serve the ledger",
 "A storage which dispatches both token programs to token stores (one for both, or one each) and everything else to the account store answers like the ledger while accounts change between token account, mint, multisig, ordinary account, untracked account and closed account: a read returns at each commitment the last write of the account up to the slot of this commitment, with its owner, data and (except for token accounts) lamports; queries of each program (by owner or mint of token accounts, all mints, or with data filters) return each account which belongs to the program at that commitment exactly as reads do and no other; a notification announces each live, tracked account whose last write reached the commitment with this slot, in its latest state, and nothing else; and stores which are loaded from the snapshots of its programs serve the finalized state. All of this also holds below accounts on demand once everything is registered. It holds for one chain in which the writes arrive as processed, in the order of the ledger, before the notifications of their slot, and whose mints belong to the program of their token accounts.",
 ["histories"],"all histories of writes which change the type and the owner of accounts, with new slots, skipped slots, confirmations and finalizations of the current or the previous slot, over three ways to put the stores together",
 "Each store has to notice when an account leaves it for the other kind of store and what the other announces; the crates are only tested one by one.",
 [SP,AS,TS],[("dispatch",SP),("accounts which leave the token program",TS+": update_account"),("accounts which leave the tracked programs",AS+": update_account")],
 "AccountsOnDemand over StorageByProgramId over TokenProgramAccountsStorage and InmemoryAccountStore","AccountStorageInterface of the outermost storage")
p("D01","An on demand read never answers before its account is loaded",
 "When several callers ask concurrently for the same unknown account or program query, each of them gets the complete loaded result, or an error, and never an empty or partial answer because another caller is still loading it. No caller hangs once the loading has ended.",
 ["schedules"],"all thread interleavings up to a bound of preemptions, with spurious wake ups and time outs, of concurrent callers of the same and of different keys",
 "The window lies between registration, loading and wake up of the waiters; tests of the crate do not exist.",
 [OD],[("loading tables and waiters",OD+": get_account, get_program_accounts")],
 "loading tables","results of the concurrent calls")
p("D02","A failed on demand load is reported and can be retried",
 "If the subscription or the loading fails, the caller and everybody who waits for it get an error in finite time, and the next request for the same key starts a new attempt which can succeed. A loading which takes longer than the time limit of 10 seconds is reported as a time out to the callers who wait for it. A failed loading of a broader query does not take away what was already loaded.",
 ["schedules","fault_sequences"],"all sequences of success and failure of the source, with all interleavings of the callers up to a bound of preemptions",
 "Failure paths leave entries behind or lose wake ups only for particular interleavings of failure and waiting.",
 [OD],[("cleanup on failure",OD+": get_account, get_program_accounts")],
 "loading and failed tables","results of the calls and calls made on the source")
p("D03","An account or query is subscribed once and then served from the store",
 "Whatever the number of concurrent and later requests, a key which was loaded successfully is subscribed and loaded exactly once, also when the account turns out not to exist. Known accounts and queries covered by registered filters never reach the source, and the loaded key is registered in the filters before it is loaded, so that the store can accept its accounts.",
 ["schedules","histories"],"all sequences of requests over several keys, and all interleavings of concurrent requests up to a bound of preemptions",
 "Duplicate subscriptions need two requests at the same moment, or a request for an account which does not exist.",
 [OD,MF],[("registration of loaded keys",OD+": get_account, get_program_accounts; "+MF)],
 "registered filters","calls recorded by the source")
p("C14","Filters added at run time take effect at once and none is lost",
 "However many threads add filters to a shared filter store while others ask it about accounts and updates, every filter is in effect when the call which added it has returned and stays in effect, the filters of one call become visible together, and the answers are those of some sequential order of the calls. Nobody hangs.",
 ["schedules"],"all thread interleavings at lock operations, up to a bound of preemptions, of groups of concurrent additions and questions",
 "A lost or half applied addition needs two threads inside a window of a few instructions.",
 [MF],[("adding and asking",MF+": add_account_filters, contains_account, contains_filter, satisfies_filter")],
 "registered filters","answers of the filter store")
p("D04","No update is lost while something is loaded on demand",
 "While an account or a program is being loaded on demand, every update of a tracked account which the source delivers after the subscription is recorded or is part of the loaded snapshot: afterwards the newest state is served at every commitment, and a reader never sees an older state after a newer one. Everything else (updates, notifications, snapshots and queries of registered keys) is answered exactly as by the wrapped store. Accounts which leave the loaded query during the loading are not covered.",
 ["schedules"],"all thread interleavings up to a bound of preemptions of a load, the updates and notifications of the chain and readers, with every position of the snapshot relative to the chain",
 "The window lies between subscription, snapshot and registration of the key.",
 [OD,MF],[("order of registration, subscription and snapshot",OD+": get_account, get_program_accounts")],
 "store behind the on demand storage","reads after and during the loading")
RS="simulate_from_snapshot/src/rpc_server.rs"
SU="simulate_from_snapshot/src/snapshot_utils/"
MAIN="simulate_from_snapshot/src/main.rs"
p("E01","The RPC server answers exactly what the store holds for the parameters",
 "For every combination of parameters, the RPC server returns the accounts which the store holds for the key or the program, the filters and the commitment which were asked for (finalized, unless said otherwise), in the encoding and with the data slice which were asked for, with the newest slot at which one of them was changed as context. With a minimum context slot and with context, a program query leaves out accounts changed before it. Bad addresses, unsupported filters and queries which the store refuses are answered by an error and never by an empty or partial result, and no request makes the server panic.",
 ["inputs","configurations"],"all combinations of method, key, commitment, encoding, data slice, minimum context slot, context flag and filters over accounts of a store with several commitments",
 "The program has no tests; the parameters interact (commitment, context, encoding and slices) and each has a default.",
 [RS],[("requests",RS+": get_program_accounts, get_account_info, get_snapshot, convert_account_data_to_ui_account")],
 "store behind the server","answers of the server")
p("E02","A snapshot archive or directory is read exactly, or an error is reported",
 "Reading a snapshot, from an archive or from an unpacked directory, yields every account of every append vec in it, up to the length which its manifest gives, once and with all of its fields and bytes, whatever the sizes, alignments and order of the files and whatever other files are between them. If a snapshot is cut short inside of a file, has no manifest, has an append vec which the manifest does not name, or has a file which cannot be opened or is shorter than the manifest says, the reader reports an error. It never ends early without one, never invents an account and never reads outside of an append vec.",
 ["inputs","fault_sequences"],"all archives of a bounded family of layouts (counts and sizes of accounts, padding, order of entries, other files), cut at every place and damaged in every header field",
 "The program has no tests; a lost account needs a cut or a length at a particular place.",
 [SU+"archived.rs",SU+"unpacked.rs",SU+"append_vec.rs",SU+"solana.rs"],[("readers",SU+"archived.rs: from_reader, unboxed_iter; "+SU+"unpacked.rs: open, unboxed_iter"),("append vecs",SU+"append_vec.rs: new_from_reader, new_from_file, sanitize, get_account; "+SU+"mod.rs: append_vec_iter")],
 "none","accounts and errors which the readers return")
p("E03","Append vecs are consumed in parallel once each, and errors are reported",
 "When append vecs are consumed in parallel by a number of workers, each append vec is given to exactly one consumer, there are never more vecs at work or consumers created than workers, vecs are taken from the snapshot only as workers become free, and the call returns successfully only when all of them are done. An error of a vec, of creating a consumer or of a consumer, and a consumer which panics, is reported to the caller; a vec which was not consumed is never reported as success.",
 ["schedules","fault_sequences"],"all orders in which the consumers finish, for all small numbers of vecs and workers and all places of errors and panics",
 "The program has no tests; the result depends on which consumer finishes first.",
 [SU+"parallel.rs"],[("parallel consumption",SU+"parallel.rs: par_iter_append_vecs")],
 "consumers at work","calls of the consumers and the result")
p("E04","The program serves the snapshot brought up to date by the stream",
 "Once the program serves, each token account and mint is answered, at each commitment, with its newest state among the snapshot archive and the stream of updates and slots, wherever the updates arrive during the reading of the archive, and accounts of other programs are not served. An archive which cannot be read to its end is never served.",
 ["schedules","histories","fault_sequences"],"all sequences of updates and slot messages up to a length, at all places relative to the files of the archive, all orders of the append vecs, and archives cut at every place",
 "The program has no tests; what is served depends on the order of the stream and of the archive.",
 [MAIN,"token_account_storage/src/inmemory_token_storage.rs"],[("loading and stream",MAIN+": main")],
 "token store of the program","answers of its server")
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
