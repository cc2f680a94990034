# (id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)])
ABC = 'account_storage/src/account_data_by_commitment.rs'
INM = 'account_storage/src/inmemory_account_store.rs'
BYP = 'account_storage/src/storage_by_program_id.rs'
OND = 'accounts_on_demand/src/accounts_on_demand.rs'
MUT = 'common/src/mutable_filter_store.rs'
EXF = 'common/src/except_filter_store.rs'
AI = 'common/src/accounts_source_interface.rs'
CAD = 'common/src/account_data.rs'
CFI = 'common/src/account_filter.rs'
SFS = 'common/src/simple_filter_store.rs'
CMT = 'common/src/commitment.rs'
TPA = 'token_account_storage/src/account_types.rs'
TIN = 'token_account_storage/src/inmemory_token_storage.rs'
TIA = 'token_account_storage/src/inmemory_token_account_storage.rs'
TUT = 'token_account_storage/src/token_program_utils.rs'
TPS = 'token_account_storage/src/token_account_storage_interface.rs'
P = []
def prop(*a): P.append(a)
prop('P01', 'The newer state of an account wins',
 'For every commitment level an account holds the newest state it was given for that level, by slot and, within one slot, by write version, in whatever order the states arrive. An update or slot promotion never replaces a state by an older one, and reports a change exactly when it changed what is visible at the level it was given for.',
 ['inputs', 'histories'], 'every account state (any slots and write versions at the three levels, any set of pending processed states) and every update or promotion applied to it',
 'The tests feed a few hand-picked orders; which of the three level slots and the pending processed states are present, equal, older or newer gives hundreds of combinations.',
 [ABC], [('update of one account', ABC), ('promotion of a slot', ABC)])
prop('P02', 'Commitment levels of an account are nested',
 'The processed view of an account is never older than its confirmed view, and the confirmed view never older than its finalized view. A level that has a state stays readable after any further update or promotion.',
 ['inputs', 'histories'], 'every account state satisfying the nesting and every update or promotion applied to it',
 'The tests look at single states after short scripted sequences; the nesting is an invariant over all histories.',
 [ABC], [('update of one account', ABC), ('promotion of a slot', ABC)])
prop('P03', 'Reads return the state of the requested level',
 'Reading an account at a commitment level returns the newest state known at that level or above it and nothing from a lower level. A filtered read returns that same state when it satisfies every filter and nothing otherwise, and an account without any state returns nothing.',
 ['inputs'], 'every account state, commitment level and list of filters',
 'The tests read a handful of states with one or two filters.',
 [ABC], [('read of a level', ABC), ('filtered read', ABC)])
prop('P04', 'A deleted account is never returned',
 'An account whose state at the requested commitment level has zero lamports is absent from single account reads, program account queries (with and without filters) and snapshots of the account store. Only that state decides: an account which is live at the requested level is returned even when it is already deleted at a lower level.',
 ['inputs', 'histories'], 'every content of the account store, every key, program, filter list and commitment level',
 'The tests delete one or two accounts and read them at some levels.',
 [INM], [('read of one account', INM), ('program account query', INM)])
prop('P05', 'Program account queries are exact',
 'A program account query on the account store returns, for the accounts indexed under the program, exactly the live states at the requested commitment level that are owned by the program and satisfy all the given filters, including accounts that another thread holds locked when they are first visited. A query not covered by the configured filters is an error, never a silently partial result.',
 ['inputs', 'schedules'], 'every content of the account store, program, filter list, commitment level, and every set of accounts locked by writers while the query runs',
 'The tests query small stores from one thread, so the retry path is never taken and few combinations of owner change, deletion and filters occur.',
 [INM], [('program account query', INM)])
prop('P06', 'Slot notifications promote the slot and its known ancestors',
 'A confirmed or finalized notification promotes every account updated in the slot and in each ancestor reachable over known parent links that is not already at that level, each account with the highest slot of that chain; a processed notification promotes the slot only. The commitment of a slot never goes down, the parent of a slot is remembered, and after a finalized notification only slots older than it are forgotten. The states newly visible at that level, and no others, are returned.',
 ['inputs', 'histories'], 'every table of known slots with parents and commitments and every slot notification',
 'The tests use chains of a few slots notified mostly in order.',
 [INM], [('slot notification', INM)])
prop('P07', 'Updates adopt the commitment of their slot',
 'An account update received after the notification that its slot was confirmed or finalized is stored at that level, otherwise at the level it is given with, and the account is registered so that later notifications for the slot promote it. The slot is looked up while the account is held so that no notification falls between, and an update itself never changes the commitment or parent of a slot.',
 ['inputs', 'schedules', 'histories'], 'every update, every state of the slot table and every interleaving with slot notifications',
 'The race between an update and a notification cannot be produced by the single threaded tests.',
 [INM], [('update of an account', INM), ('slot table', INM)])
prop('P08', 'Finalization drops only what nothing needs any more',
 'An account leaves the index of a former owner, or is dropped from the store altogether, only at the finalized level and only when none of its same or newer states still needs it; the key of a dropped account is then dropped too unless the account came back meanwhile. Pending processed states are discarded only when they are superseded by the finalized state, and a finalized change of owner, as a deletion is one, does perform this cleanup.',
 ['inputs', 'histories', 'schedules'], 'every combination of states of an account at the three levels, owners and deletions, for updates and slot notifications',
 'The tests have one owner change and one deletion without newer states in between.',
 [INM, ABC], [('cleanup on finalization', INM), ('pruning of processed states', ABC)])
prop('P09', 'Live tracked accounts are indexed under their owner',
 'Whenever an update stores a live state that satisfies the configured filters, the account is listed under the owner of that state when the update returns, also when the account is new, was deleted before, or changed owner. Such an update never drops the account.',
 ['inputs', 'histories'], 'every update in every state of the account and of the indexes',
 'The tests cover the creation and one change of owner.',
 [INM], [('owner index', INM), ('update of an account', INM)])
prop('P10', 'One entry per account, found under its key',
 'Each account has exactly one entry in the account store: an unknown account is stored exactly when it satisfies the configured filters, a known one is always updated in its own entry, and slot and owner indexes refer to that entry. A read by key returns the state of that entry and nothing for unknown keys, and an update reports true exactly when it changed the store for its level.',
 ['inputs', 'schedules'], 'every key, account state and filter configuration, and concurrent updates of one new key',
 'The tests never create one account from two threads and check indexes only through a few reads.',
 [INM], [('key index', INM)])
prop('P11', 'No deadlock between concurrent operations',
 'The operations of the account store, the on-demand storage, the storage by program id and the token storage can run concurrently without deadlock: locks are acquired in one consistent order and no operation waits for a lock it already holds. No lock is held while waiting for another thread to finish loading.',
 ['schedules'], 'every interleaving of any operations of the storages',
 'A deadlock needs two threads at particular points; the tests are almost all single threaded.',
 [INM, OND, TIN, TIA, BYP], [('locks of the account store', INM), ('locks of the on-demand storage', OND), ('locks of the token storage', TIN)])
prop('P12', 'Unknown keys and absent data never panic',
 'Reading, querying or updating with keys, mints, owners or slots that are not in the store ends normally: no operation of the storages panics because an entry it looks up is missing or a result is empty.',
 ['inputs', 'histories'], 'every operation with every key in every content of the stores',
 'The tests mostly read what they wrote before.',
 [INM, OND, TIN, TIA, BYP, SFS, MUT], [('lookups of the storages', INM), ('lookups of the token storage', TIN)])
prop('P13', 'Every end of an on-demand load wakes its waiters',
 'However an on-demand load ends - success, error or timeout of the source, or failure to load the snapshot - the marker that it is in progress is removed and every request waiting for it is woken. A failed load leaves nothing behind that makes a later request hang or be answered as if the data were loaded.',
 ['schedules', 'fault_sequences'], 'every outcome of the source calls and every interleaving with other requests for the same data',
 'The tests use a source that always answers.',
 [OND], [('loading of an account', OND), ('loading of program accounts', OND)])
prop('P14', 'On-demand requests load once and wait at most the timeout',
 'Of concurrent on-demand requests for the same account or the same program query at most one subscribes and loads while the others wait for it, never longer than a fixed time limit, after which they fail with a timeout error. A request which finds the data loaded meanwhile is answered from the storage.',
 ['schedules'], 'every interleaving of requests for the same data and every duration of the load',
 'The tests issue requests one after the other.',
 [OND], [('waiting for a load', OND)])
prop('P15', 'On-demand loads register the filter before loading',
 'A successful on-demand load registers the filter for what was loaded and subscribes to its updates before the loaded data is stored, so that no update in between is lost and later queries are covered. Data is requested from the source only for accounts and queries that are not known yet, and what was loaded is what the request is answered with.',
 ['inputs', 'schedules'], 'every request, every filter configuration and every interleaving of updates with the load',
 'The mock source delivers nothing between the steps of a load.',
 [OND, MUT], [('loading of an account', OND), ('filter store', MUT)])
prop('P16', 'Wrapper storages forward operations unchanged',
 'The on-demand storage forwards updates, slot notifications, initialisation, snapshots and reads of known data to the wrapped storage with the same arguments and returns its result unchanged.',
 ['inputs'], 'every operation and argument',
 'The tests check forwarded reads for a few accounts only.',
 [OND], [('forwarding', OND)])
prop('P17', 'Storage by program id dispatches every operation',
 'A storage split by program id passes an account update to every registered storage, and to the default storage as well unless a registered storage took it and its owner is registered; an initialisation, a program query and a snapshot go to the storage registered for the program and otherwise to the default one, and only there. Slot notifications reach every storage once and all their results are returned. A read by key returns what a registered storage holds and otherwise the answer of the default storage.',
 ['inputs', 'configurations'], 'every configuration of programs and storages and every operation',
 'The tests use one configuration.',
 [BYP], [('dispatch', BYP)])
prop('P18', 'The filter store accepts exactly what its filters describe',
 'A filter store accepts an account exactly when one of the configured filters lists its key or matches its owner and all the sub-filters (data of the given size; the given bytes, in any encoding, at the given offset; nothing when the bytes of a filter cannot be decoded). It answers that a query is covered only when every account the query can match is accepted by a configured filter, and always for the query of a configured filter. Adding filters never makes it reject what it accepted before.',
 ['inputs', 'configurations'], 'every set of configured filters, every account and every query filter',
 'The tests configure a few filters of each kind.',
 [SFS, CFI, MUT], [('matching of accounts', SFS), ('sub-filters', CFI), ('coverage of queries', SFS), ('shared filter store', MUT)])
prop('P19', 'Exclusion filters reject exactly the excluded accounts',
 'The excluding filter store rejects exactly the accounts its filters describe and accepts all others, and answers that a query is covered exactly when none of the accounts it lists and not its program is named by a filter.',
 ['inputs', 'configurations'], 'every set of exclusions, every account and query filter',
 'The tests exclude one program.',
 [EXF, SFS], [('exclusion', EXF), ('matching of accounts', SFS)])
prop('P20', 'Token account encoding round-trips',
 'Every field written when a token account is serialised is read back from the same position with the same meaning, presence flags included, whatever optional parts are present.',
 ['inputs'], 'every token account: type, state, delegate, close authority, native amount, multisig and additional data',
 'The tests encode some random accounts; the layout depends on the combination of optional parts.',
 [TPA], [('encoding', TPA), ('decoding', TPA)])
prop('P21', 'Stored data is decompressed the way it was compressed',
 'For each compression method the bytes of an account are read back with the inverse of the operation that wrote them, including how the length is recorded, for data up to the largest size an account can have; its length is reported as given, and an account keeps every field.',
 ['inputs', 'configurations'], 'every compression method and account data',
 'The tests use one compression method per test on a few accounts.',
 [CAD, TIA], [('compression of account data', CAD)])
prop('P22', 'Token accounts are reproduced as given',
 'Every well formed token account, mint and multisig of either token program, with or without extensions, is recognised as what it is, and converting it back gives the same key, owner program and data: every field of the base state at its place, presence of optional parts included, followed by the extensions. It is given back as not executable, as such accounts are. Lamports of mints and multisigs are kept, those of a token account are what exempts an account of its size from rent; slot and write version are those asked for. An account without lamports, or of another program, counts as deleted. A token account is left out only when its mint is not known.',
 ['inputs'], 'every account of the token programs and every content of the mint index',
 'The tests convert some random plain accounts; extensions, absent and present optional fields, frozen and uninitialised states are many combinations.',
 [TUT, TPA], [('recognition of token accounts', TUT), ('conversion back', TUT)])
prop('P25', 'The token account storage is a map by full key',
 'Reading a token account by key returns what was last stored under that key, whatever other accounts share its partial key; storing or deleting one account changes no other. An account keeps its position while it is stored, storing tells the position and whether the account is new, a position read after deletion gives a deleted account, and a storage snapshot holds exactly the live accounts of the program.',
 ['inputs', 'histories'], 'every content of the storage, including accounts sharing a partial key, and every operation',
 'Random keys hardly ever share a partial key, so the tests do not meet shared buckets.',
 [TIA, TPA], [('token account storage', TIA), ('partial keys', 'common/src/pubkey_container_utils.rs')])
prop('P23', 'Token account updates reach the level they are for',
 'An update of the token account storage is taken exactly when it belongs to a token program (now, or as an account known to the storage) and can be understood. At processed and confirmed level it becomes the state of the account in its slot unless the slot has a state of the same or a newer write version, and the answer tells whether it did; at finalized level, and for initial states, it is stored as finalized. Nothing else changes.',
 ['inputs', 'histories'], 'every update at every level and every content of the slots it can meet',
 'The tests send updates of well-formed accounts of one owner at one level, one after the other.',
 [TIN], [('updates of token accounts', TIN)])
prop('P24', 'Slots decide which token account state is seen',
 'A token account read at processed or confirmed level gives its newest state on the chain of slots seen at that level, at finalized level, or when no slot has it, the finalized one. A confirmed slot tells of its accounts; a finalized slot stores the newest state of every account of its chain exactly once, drops all slots up to it and no other; the confirmed and finalized slots only rise.',
 ['inputs', 'histories'], 'every shape of the slots (parents known or not, confirmed or not, holding an account or not), every read and slot notification',
 'The tests walk a single chain of slots; forks, gaps and late notifications are not among them.',
 [TIN, CMT], [('reads of token accounts', TIN), ('slot notifications', TIN)])
prop('P26', 'Token accounts, mints and their indexes stay in step',
 'After a finalized account of a token program was stored it is found under its key as it was given, and a deleted one is not found whatever kind it was; other accounts are found as before. A token account is listed under its owner and its mint. A mint has one index, which is its own, keeps it, and its data are those given last.',
 ['inputs', 'histories'], 'every kind of account before and after, and every content of the storage and its indexes',
 'The tests store each account once; changes of the kind, the owner or the mint of a key that is already stored are histories they do not contain.',
 [TIN, TUT], [('finalized accounts', TIN), ('indexes of mints', TUT)])
prop('P27', 'Token snapshots restore what they captured',
 'Loading a snapshot that the storage created gives every mint, multisig and token account of that program with the mints, owners and data they had, listed under their owners and mints, also when the storage numbers its mints differently; mints that are known keep their index and their data are renewed. Bytes that cannot be decoded are an error and change nothing.',
 ['inputs', 'histories'], 'every content of the storage that creates a snapshot and of the one that loads it',
 'The tests load a snapshot into an empty storage, where mints get the numbers they had.',
 [TIN], [('creation of token snapshots', TIN), ('loading of token snapshots', TIN)])
prop('P28', 'Token program queries answer exactly what matches',
 'A query for accounts of a token program returns exactly the accounts that are seen at the asked commitment, belong to the program and pass all filters, each once; a query that the indexes cannot answer is an error. An owner or a mint is only taken from filters that compare the whole key in a token account, and the usual wallet and mint queries are recognised.',
 ['inputs', 'histories'], 'every list of filters, commitment and content of the storage',
 'The tests query by owner and mint over finalized accounts generated to match.',
 [TIN, TUT], [('queries of token accounts', TIN), ('recognition of filters', TUT)])
prop('P29', 'Levels and token account states keep their meaning',
 'A commitment configuration of a client is taken as the level it means (deprecated names included), the levels are ordered processed, confirmed, finalized, and the state of a token account is the same before it is taken into the store and after it is given back, for both token programs.',
 ['inputs'], 'every commitment level, every pair of levels, every token account state of both programs',
 'The tests use a few levels and only initialized token accounts.',
 ['common/src/commitment.rs', TPA], [('levels', 'common/src/commitment.rs'), ('token account states', TPA)])
prop('P30', 'Filters mean the same in every form',
 'A filter accepts the same accounts after it was written as JSON and read again, after it was turned into filters for an rpc request, and when it was made from the filters of one: sizes, offsets and bytes in every encoding are kept, nothing is added or left out. An account passes a size or content filter of an rpc request exactly when its data have that size or content. Every JSON document is read or refused with an error.',
 ['inputs'], 'every filter, rpc filter and JSON document; up to two sub-filters and accounts followed through the conversions',
 'The tests read a few documents and convert none of the encodings.',
 [CFI], [('conversions of filters', CFI)])
prop('P31', 'Account snapshots restore what they captured',
 'A snapshot of a program contains exactly the live accounts a finalized program account query returns, and loading a snapshot stores every account it contains, each as a finalized state. A snapshot that cannot be decoded is an error and changes nothing.',
 ['inputs'], 'every content of the account store, program and snapshot',
 'The tests load one snapshot of a few accounts.',
 [INM], [('snapshot of a program', INM), ('loading of a snapshot', INM)])
prop('P32', 'Updates by several threads are all kept',
 'When several threads update the stores at the same time, no update is lost: an index entry that collects accounts, filters or indexes is never replaced by one made from an earlier reading of it or created over one that another thread created meanwhile, it is not removed because of what it held before, and every counter of indexes or slots is read and written in one step.',
 ['inputs', 'schedules'], 'every operation of the stores and every interference by other operations between two accesses to the same shared map or counter',
 'The tests are single threaded.',
 [INM, TIN, TUT], [("entries of the indexes", INM), ("token indexes and counters", TIN)])
P_ = P
prop('P33', 'A query sees one moment of the store',
 'A program account query that runs while updates arrive returns what a query at one single moment between its start and its end would have returned: no mix of states before and after a slot notification.',
 ['schedules'], 'every interleaving of a query with updates and slot notifications of any number of accounts',
 'The tests are single threaded.',
 [INM], [('program account query', INM)])
prop('P34', 'Memory is bounded by what is live',
 'The memory used by the stores stays proportional to the live accounts and the slots which are not finalized, over any history of updates, deletions and slot notifications.',
 ['histories'], 'every history of updates and notifications',
 'The tests run short histories and do not measure memory.',
 [INM, TIN], [('account store', INM), ('token storage', TIN)])
NA = {
 'P33': 'relates the values read in many separate critical sections (one lock per account) to those written by other threads in between; a static effect analysis can only report that the query is not one critical section, which is the design, and cannot tell the interleavings that matter from those that do not',
 'P34': 'quantifies over the sizes of collections at run time; which accounts and slots are dropped when is decided by P06, P08, P24 and P25, but their number over a history has no static bound (positions of deleted accounts are kept by design)',
}
