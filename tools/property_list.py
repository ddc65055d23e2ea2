MODEL = "property-based testing: generated histories against a reference model, with shrinking"
VALUES = "property-based testing: generated inputs against an exact reference, with shrinking"
PRED = "property-based testing: generated inputs and histories against a validity predicate, with shrinking"

prop(
    "C01", "Unit conversions keep the amount exactly",
    "Converting a non-negative amount between a chain's units (ADA and lovelace, ether and wei, algo and microalgo), to and from the normalized form, and between main chain, side chain and normalized precision by a token's rule (ERC20's, the default one: no decimals and 18) gives exactly the amount scaled by the units' power of ten, in the unit it names, whatever its size or number of decimals. Converting there and back gives the same amount, and the order of amounts is kept.",
    ["inputs"], "every non-negative decimal amount and every precision rule",
    "The tests convert a handful of short amounts; rounding, precision loss and scale mistakes show only for long or fractional ones.",
    ["core/src/value.rs"],
    [("decimal arithmetic", "core/src/value.rs: impl Value<Ada>, Value<Lovelace>, Value<Ether>, ..."), ("precision rules", "core/src/value.rs: normalize_from_mainchain, from_normalized_to_sidechain")],
    VALUES, "Exact big-integer reference over generated decimals of up to 60 digits; sampled, not exhaustive. Trusts num-bigint.",
    observe=["Value's conversion methods and From implementations"],
)
prop(
    "C02", "Amounts survive text and JSON, and malformed ones are refused",
    "An amount written as text or JSON, in any unit and also after conversions, reads back equal and denotes the number it stands for. Reading accepts decimal numbers (and JSON integers) with no more decimals than the unit has, and reads each as itself; negative numbers and numbers with more decimals are refused, and no text makes it panic.",
    ["inputs"], "every text and every amount in each of the eight units",
    "The tests parse a few literals; exponent forms, padding, negative and over-precise numbers are open.",
    ["core/src/value.rs"],
    [("parsing", "core/src/value.rs: impl FromStr"), ("serialisation", "core/src/value.rs: impl Serialize, Deserialize, Display")],
    VALUES, "Round trip and an independent reader of decimals over generated texts; sampled.",
    observe=["Display, FromStr, serde of Value"],
)
prop(
    "C03", "Arithmetic and comparison of amounts are exact",
    "Adding, subtracting and multiplying amounts by any operator form is exact; equality, ordering and hashing depend on the number alone and not on how it is represented. Truncation gives the integer part and extraction as an integer gives the number itself or says that it does not fit; division is right to the precision kept.",
    ["inputs"], "every pair of amounts in every representation",
    "The tests use amounts of one representation; equal numbers with different scales are where comparison and hashing go wrong.",
    ["core/src/value.rs"],
    [("operators", "core/src/value.rs: impl Add, Sub, Mul, Div, Sum"), ("comparison", "core/src/value.rs: impl PartialEq, Ord, Hash")],
    VALUES, "Exact big-integer reference; sampled.",
    observe=["operators, Ord, Hash, truncate, to_u64 and to_i128 of Value"],
)
prop(
    "C04", "A balance always is the signed sum of what was added and taken",
    "After any sequence of additions, subtractions and joins, a balance is in debt, in excess or balanced by exactly the difference of what was added and what was taken, and reports that amount. Its predicates, text, and equality agree with that, also when a step settles it exactly or crosses from debt to excess.",
    ["histories"], "every sequence of operations on a balance with any amounts",
    "The tests check single crossings with small integers.",
    ["core/src/balance.rs"],
    [("sign handling", "core/src/balance.rs: add_value, sub_value, operators")],
    MODEL, "Signed exact integer as the model, compared after each step; sampled histories of up to 25 steps.",
    observe=["Balance and its predicates"],
)
prop(
    "C05", "Block, slot, index and time numbers behave as 64-bit numbers",
    "Block numbers, slot numbers, output indexes and time stamps order, print, parse and serialise exactly as the 64-bit number they hold. Checked operations report overflow, saturating ones stop at the limits, and nothing wraps or panics.",
    ["inputs"], "every pair of 64-bit numbers, every text",
    "The tests check a few numbers, mostly not at the limits.",
    ["core/src/block_number.rs", "core/src/slot_number.rs", "core/src/output_index.rs", "core/src/timestamp.rs", "core/src/number_visitor.rs"],
    [("wrappers", "core/src/block_number.rs, slot_number.rs, output_index.rs, timestamp.rs"), ("JSON", "core/src/number_visitor.rs")],
    VALUES, "u64 itself as the reference, with numbers at and around the limits; sampled.",
    observe=["the public types"],
)
prop(
    "C06", "The UTxO store holds exactly what was inserted and not removed",
    "After any sequence of insertions and removals a UTxO store holds exactly the outputs inserted and not removed, each with its details; inserting an output that is there or removing one that is not is refused and changes nothing. Its balance per token and its list of outputs per token, also in order of amount, and every selection always agree with those outputs.",
    ["histories"], "every sequence of insertions, removals, freezes and resumptions, with any amounts and tokens",
    "The tests insert and remove a few outputs with distinct amounts; indexes that drift from the outputs show only after removals, equal amounts or several assets.",
    ["core/src/utxo_store.rs", "core/src/tx/utxo.rs"],
    [("indexes kept beside the outputs", "core/src/utxo_store.rs: insert, remove")],
    MODEL, "Plain map as the model, every read compared after each step; sampled histories of up to 40 steps.",
    state=[("outputs, balances and orders by token", "the store's content and its indexes", "core/src/utxo_store.rs")],
    observe=["UTxOStore's and its builder's methods"],
)
prop(
    "C07", "A frozen UTxO store never changes",
    "A frozen store keeps its contents whatever happens to stores resumed from it or to the store it was resumed from. Each branch holds what was there when it branched off plus its own changes.",
    ["histories"], "every branching history of changes, freezes and resumptions",
    "The tests keep no earlier snapshot while a later one changes.",
    ["core/src/utxo_store.rs"],
    [("persistent collections shared by snapshots", "core/src/utxo_store.rs: freeze, thaw")],
    MODEL, "Every snapshot is compared in full with its model after every step; sampled histories of up to 25 steps.",
    observe=["UTxOStore after changes to builders derived from it"],
)
prop(
    "C08", "Transactions survive JSON under their published field names",
    "A transaction, output, pointer or asset written as JSON reads back equal, and is written under its published field names. A field that does not exist is refused where the format says so, and one that may be left out takes its default.",
    ["inputs"], "every transaction with any identifiers, amounts, assets and metadata",
    "The tests do not serialise transactions with arbitrary text, amounts and metadata.",
    ["core/src/tx/transaction.rs", "core/src/tx/transaction_asset.rs", "core/src/tx/utxo.rs", "core/src/tx/transaction_id.rs"],
    [("derived serialisation", "core/src/tx/")],
    VALUES, "Round trip, with field names checked against the published ones; sampled.",
    observe=["serde of the transaction types"],
)
prop(
    "C09", "Asset fingerprints are those of CIP-14",
    "The fingerprint of a policy and an asset name given in hexadecimal is the BLAKE2b-160 digest of the two concatenated, in lower-case hexadecimal padded with zeros to 64 digits, for names of any length. Anything that is not hexadecimal is an error, not a panic or another fingerprint.",
    ["inputs"], "every policy and asset name, and every text given for one",
    "The tests check the specification's few examples.",
    ["cardano-utils/src/cip14.rs"],
    [("digest", "cardano-utils/src/cip14.rs")],
    VALUES, "An own BLAKE2b-160 (written from RFC 7693) as the reference; sampled.",
    observe=["cardano-utils' fingerprint functions"],
)
prop(
    "C10", "The log database is a list of records in order of appending",
    "Each record appended to a fraos database gets the next number, starting at 0, and a batch gets consecutive ones in its order. Every number below the length leads to exactly the bytes appended, every other one, however large, to none, and iteration from any number gives the rest in order; this holds in memory and on disk, whatever the sizes.",
    ["histories", "inputs"], "every sequence of appends and reads, with records of any size and any numbers",
    "The tests append small records of one size; growth of the files, records across mappings and numbers far beyond the end are not reached.",
    ["fraos/src/database.rs", "fraos/src/appender.rs", "fraos/src/flatfile.rs", "fraos/src/growable_mmap.rs", "fraos/src/index_on_mmaps.rs", "fraos/src/seqno.rs", "fraos/src/seqno_iter.rs", "fraos/src/shared_mmap.rs"],
    [("data file and index of end positions", "fraos/src/flatfile.rs, index_on_mmaps.rs"), ("growth by additional mappings", "fraos/src/growable_mmap.rs")],
    MODEL, "Plain list as the model, compared after each step; sizes are built to land at the ends of mappings. Sampled histories of up to 14 appends.",
    state=[("data and index mappings", "records, and where each one ends", "fraos/src/appender.rs")],
    observe=["Database::append, put, get_by_seqno, iter_from_seqno, len, last"],
)
prop(
    "C11", "A refused or failed append leaves the log as it was",
    "An append that is refused (an empty record anywhere in the batch, a read-only database) or fails (the files cannot grow) adds nothing: no record of the batch is ever seen and nothing there before is lost. Later appends succeed and get the numbers that come next, also after reopening.",
    ["fault_sequences", "histories"], "every history with refused and failing appends at any place, failing in the data or in the index",
    "The tests check the refusal alone; what an interrupted append leaves behind shows in what follows.",
    ["fraos/src/database.rs", "fraos/src/appender.rs", "fraos/src/flatfile.rs", "fraos/src/growable_mmap.rs"],
    [("lengths are published after everything is written", "fraos/src/appender.rs, database.rs")],
    MODEL + " and injected faults (file size limit)", "Faults are injected with RLIMIT_FSIZE; a full disk met when a sparse page is written (SIGBUS) is not reproduced.",
    observe=["Database after a failed append"],
)
prop(
    "C12", "Reopening, copying or reading a log elsewhere gives what was appended",
    "A log closed and opened again, its files copied between two appends, or opened read-only beside its writer holds exactly the records appended by then, and goes on from there where it may. Opening read-only never creates or changes anything, also where there is no log.",
    ["histories", "configurations"], "every history of appends with closings, read-only openings and copies at any point",
    "The tests reopen once after a few records.",
    ["fraos/src/database.rs", "fraos/src/appender.rs", "fraos/src/growable_mmap.rs"],
    [("trimming on close, recovery of lengths on open", "fraos/src/database.rs")],
    MODEL, "Plain list as the model; sampled histories of up to 12 steps.",
    observe=["Database::file, Database::file_readonly"],
)
prop(
    "C13", "A log survives the crash of its process",
    "When the process dies at any point, opening the log again gives a prefix of what was appended that includes everything whose append had returned, each record whole, and appends go on from there. Files that no crash leaves (indexed data missing, an index cut within an entry) are reported as an error, not read as records.",
    ["crash_points"], "every point in time of a crash, every torn state of index and data",
    "No test kills a process or opens files left by one.",
    ["fraos/src/database.rs", "fraos/src/index_on_mmaps.rs", "fraos/src/appender.rs", "fraos/src/growable_mmap.rs"],
    [("the index is written after the data", "fraos/src/appender.rs"), ("recovery of the length from the index", "fraos/src/index_on_mmaps.rs")],
    "property-based testing: generated crash points (killed writer processes) and torn files against the acknowledged appends", "Process crashes by SIGKILL at generated times, and generated torn files; power loss is covered only as those torn states.",
    observe=["Database::file after a kill"],
    crate="sched",
)
prop(
    "C14", "All handles of a log are one log, until the last is gone",
    "Clones of a database and iterators taken from them all see one log whichever of them appends, and dropping any of them leaves the others working. After the last is dropped the files hold the whole log.",
    ["histories"], "every history of cloning, dropping, appending and reading over any number of handles",
    "The tests drop all handles at once.",
    ["fraos/src/database.rs", "fraos/src/seqno_iter.rs"],
    [("shared mappings and lock", "fraos/src/database.rs: Clone, Drop")],
    MODEL, "Plain list as the model; sampled histories of up to 20 steps over up to five handles.",
    observe=["clones and iterators of Database"],
)
prop(
    "C15", "Concurrent appends to a log are atomic and readers see whole records",
    "With any number of threads appending to and reading one log, each batch takes consecutive numbers, the ones its append returned, each thread's batches stay in its order, and nothing is lost or doubled. A reader finds every record below the length it saw, whole and never changing.",
    ["schedules"], "every interleaving of appends, reads, clones and drops",
    "No test uses two threads on one log.",
    ["fraos/src/database.rs", "fraos/src/appender.rs", "fraos/src/growable_mmap.rs"],
    [("one writer at a time, lengths published last", "fraos/src/appender.rs, database.rs")],
    "property-based testing: generated threaded workloads, the history checked against the log's contract", "Schedules are those the operating system produces under generated pacing: sampled, not enumerated. A race that needs a rare preemption may be missed.",
    observe=["what each thread reads, and the final log"],
    crate="sched",
)
prop(
    "C16", "The keyed log holds every value in order and leads each key to its last",
    "Every value appended to an indexed log is kept, in order. A key leads to the last value appended under it, iteration from a key starts at that value and goes on through all later ones, and a key never appended leads nowhere.",
    ["histories"], "every sequence of appends with new and repeated keys, and of look-ups",
    "The tests append each key once or twice.",
    ["indexed-log-map/src/lib.rs", "indexed-log-map/src/storage.rs"],
    [("key index beside the log", "indexed-log-map/src/storage.rs: append, get")],
    MODEL, "List of pairs as the model, compared after each step; sampled histories of up to 40 steps.",
    observe=["IndexedLogMap's methods"],
)
prop(
    "C17", "The keyed log survives being closed and being killed",
    "A keyed log closed and opened again, read-only or not, holds everything, and each key leads to its last value. After its process is killed at any point it holds a prefix with everything acknowledged, a key leads to a value appended under it or to none, and appends go on.",
    ["crash_points", "histories", "configurations"], "every history with closings and kills at any point",
    "The tests do not kill the process, nor reopen in other modes.",
    ["indexed-log-map/src/lib.rs", "indexed-log-map/src/storage.rs", "indexed-log-map/src/config.rs"],
    [("log in fraos, key index in sled", "indexed-log-map/src/storage.rs")],
    "property-based testing: generated histories and crash points (killed processes) against a list of pairs", "Kills at generated times. After one, the key index may lag by what sled had not flushed.",
    observe=["IndexedLogMap after reopening"],
    crate="sched",
)
prop(
    "C18", "Concurrent appends to a keyed log keep each key at its last value",
    "With any number of threads appending, each append is visible under its key at once unless a later one replaced it, and look-ups never go back to an older value. In the end each key leads to the last value of the log appended under it, and no value is lost.",
    ["schedules"], "every interleaving of appends and look-ups under common keys",
    "No test uses two threads.",
    ["indexed-log-map/src/storage.rs", "indexed-log-map/src/lib.rs"],
    [("order of log and key index updates", "indexed-log-map/src/storage.rs: append")],
    "property-based testing: generated threaded workloads, the history checked against the map's contract", "Schedules are sampled, not enumerated.",
    observe=["look-ups during and after the run"],
    crate="sched",
)
prop(
    "C19", "A multiverse is the tree of blocks inserted and not removed",
    "After any sequence of insertions and removals a multiverse holds exactly the blocks inserted and not removed, inserting one again changing nothing. A block is a child of its parent if that is there when it is inserted; the tips are exactly the blocks without a child, and iteration gives every block once, in order of block number.",
    ["histories"], "every sequence of insertions, forks, removals and prunings",
    "The tests build three fixed trees; several blocks of one height and removals within a chain are not iterated.",
    ["multiverse/src/lib.rs", "multiverse/src/entry.rs", "multiverse/src/visitor/depth_ordered.rs"],
    [("links, tips and order kept beside the blocks", "multiverse/src/lib.rs: insert, remove"), ("iteration", "multiverse/src/visitor/depth_ordered.rs")],
    MODEL, "Map of blocks and links as the model, compared after each step; blocks are inserted after their parents. Sampled histories of up to 50 steps.",
    state=[("all, ordered, tips, roots", "blocks and the indexes over them", "multiverse/src/lib.rs")],
    observe=["contains, get, len, tips, iter"],
)
prop(
    "C20", "The best block is on the longest chain, as deep as asked",
    "The selected block is an ancestor of a block with the highest number, exactly as many steps up as asked, or none if that chain is shorter. Blocks reported as discardable are exactly those numbered below the selected one minus the age gap, and the preferred tip has the highest number; removed blocks are never selected, whoever still holds a reference to them.",
    ["histories", "inputs"], "every tree, depth and age gap, also over prunings",
    "The tests select in a fixed tree with small depths, and never after removing a block.",
    ["multiverse/src/lib.rs"],
    [("walk from the highest block", "multiverse/src/lib.rs: select_best_block_longest_chain, ancestor")],
    MODEL, "Recomputed from the model tree after each step; ties between highest blocks may be resolved either way.",
    observe=["select_best_block, preferred_fork_tip"],
)
prop(
    "C21", "A multiverse is restored from its database",
    "Opening a multiverse again gives exactly the blocks that were stored and not removed, with their tips and order, those numbered below the configured start being left out of storage. Clearing or destroying one multiverse, or changing it, leaves others in the same database alone.",
    ["histories", "configurations"], "every history of insertions, removals and clearings with reopenings at any point and any start of storage",
    "The tests open one stored chain.",
    ["multiverse/src/lib.rs"],
    [("blocks stored under number and identifier", "multiverse/src/lib.rs: db_insert, db_remove, load_from")],
    MODEL, "Reopened on disk and compared in full with the model; sampled histories of up to 35 steps.",
    observe=["Multiverse::load_from"],
)
prop(
    "C22", "Slots, epochs and times of an era agree",
    "In every era a slot at or after its first one lies in exactly the epoch, and at the place in it, that the epoch length in slots gives, and its time is the era's known time plus the slots since then times the slot length. Slots before the era have neither epoch nor place, and a Byron epoch and slot give the slot number counted from the start of the chain.",
    ["inputs", "configurations"], "every slot in every known era and every era configuration",
    "The tests check a dozen slots of three networks, all with one-second slots.",
    ["blockchain-source/src/cardano/time.rs"],
    [("arithmetic on slots", "blockchain-source/src/cardano/time.rs: Era")],
    VALUES, "Slots are built from an epoch and a place, at and around boundaries, and must give them back; sampled.",
    observe=["Era's methods"],
)
prop(
    "C23", "Points reach the network protocol and come back unchanged",
    "The origin, and every point with a slot and a 32-byte block hash, is the same slot and hash in the network protocol's form, comes back equal, and survives JSON; different points stay different. A block identifier that is not 64 hexadecimal digits is refused with an error.",
    ["inputs"], "every slot, hash and text",
    "No test converts a point.",
    ["blockchain-source/src/cardano/point.rs"],
    [("conversions", "blockchain-source/src/cardano/point.rs")],
    VALUES, "Round trip over generated points; sampled.",
    observe=["conversions between Point and cardano_sdk's Point"],
)
prop(
    "C24", "An optional event is a source that hands it out once",
    "Pulling from an optional event hands it out unchanged exactly once, and then nothing until another one is put in.",
    ["histories"], "every sequence of events put in and pulls",
    "No test pulls from an option.",
    ["blockchain-source/src/source.rs"],
    [("Source for Option", "blockchain-source/src/source.rs")],
    MODEL, "Sampled histories.",
    observe=["Source::pull of Option<T>"],
)
prop(
    "C25", "The balance of a transaction is what its inputs and outputs add up to",
    "A selection set up from inputs and outputs has their exact sums by token, a transaction's balance by token is inputs less outputs (and less the fee for the main token), and it counts as balanced exactly if that is nothing for every token. The check on the listed inputs and outputs also denies a result whose balances say otherwise than what it lists.",
    ["inputs"], "every list of inputs and outputs with any tokens and amounts in any representation, and every fee",
    "The tests look at balanced results; a predicate that overlooks a token, the fee or a small difference passes them.",
    ["utxo-selection/src/common.rs", "core/src/balance.rs"],
    [("sums and predicates", "utxo-selection/src/common.rs")],
    VALUES, "Exact sums over generated transactions, closed exactly and then put off by one amount; sampled.",
    observe=["InputOutputSetup::from_fixed_inputs_and_outputs, calculate_main_token_balance, calculate_asset_balance, are_assets_balanced, is_balanced, are_utxos_balanced"],
)
prop(
    "C26", "Largest first covers what is asked for with the largest outputs",
    "A selection by largest first covers the outputs and the fee for every token with distinct available inputs, each the largest one left for a token not yet covered, and takes none when all is covered. What it reports (balances, fee, inputs left and told to the estimator) is exact. It is refused only if what is available does not suffice, and then uses nothing up.",
    ["inputs"], "every set of available and fixed inputs, outputs with any tokens, and every linear fee",
    "The tests select once or twice without fees; fees growing with the inputs, tokens that come along and amounts exactly met are open.",
    ["utxo-selection/src/algorithms/largest_first.rs", "core/src/utxo_store.rs"],
    [("selection by token, then by main token", "utxo-selection/src/algorithms/largest_first.rs: select_inputs")],
    PRED, "Validity and order are decided against the input sets by an own linear fee model; sampled, up to 12 available inputs.",
    observe=["LargestFirst's select_inputs and available_inputs"],
)
prop(
    "C27", "A change balancer balances a transaction exactly or refuses",
    "Given inputs that suffice, the single output balancer adds one change at the change address that holds all that is left of every token, pays for it, and leaves the fee at exactly what is required; the fee balancer leaves all of the main token as fee if no other token is left. Either way the transaction is exactly balanced. Without enough for outputs, fee and change, or without a change address, it is refused.",
    ["inputs"], "every set of inputs and outputs, with any amount left over, and every linear fee",
    "The tests balance with a free change; amounts left at or below the cost of a change are not reached.",
    ["utxo-selection/src/algorithms/balance_change_single_output.rs", "utxo-selection/src/algorithms/balance_change_fee.rs"],
    [("change and its fee", "utxo-selection/src/algorithms/balance_change_single_output.rs: select_inputs"), ("fee", "utxo-selection/src/algorithms/balance_change_fee.rs: select_inputs")],
    VALUES, "The exact result is computed from the inputs; sampled, with the rest aimed at the cost of the change.",
    observe=["select_inputs of SingleOutputChangeBalancer and FeeChangeBalancer"],
)
prop(
    "C28", "Random improve covers what is asked for whatever it draws",
    "Whatever random numbers are drawn, a selection by random improve covers the outputs and the fee for every token with distinct available inputs, and its balances, fee, inputs left and inputs told to the estimator are exact. One selector serves selection after selection, from what is left or from inputs set anew, and a refused selection uses nothing up. A single payment of the main token is refused only if what is available does not suffice.",
    ["inputs", "histories"], "every sequence of selections, any inputs and outputs (equal ones and ones of nothing included), every linear fee, every random draw",
    "The tests select once without fees or tokens.",
    ["utxo-selection/src/algorithms/random_improve.rs"],
    [("random selection by output, improvement, selection for the fee", "utxo-selection/src/algorithms/random_improve.rs")],
    PRED, "The code draws from the system's generator, so a replay repeats its case; sampled. That a selection with several outputs or tokens be found if there is one is not claimed: the algorithm covers each output on its own (CIP-2).",
    observe=["RandomImprove's select_inputs and available_inputs"],
)
prop(
    "C29", "The thermostat keeps every token and pays the fee",
    "A selection by the thermostat is exactly balanced for every token: chosen and fixed inputs equal outputs, changes and fee, the fee is at least the one required for all of them, and every change holds at least what an output must hold and nothing of no amount. Inputs are distinct and were available; what is left stays available for the next selection. With each token asked for in outputs of that token alone, and plenty of the main token, it is not refused.",
    ["inputs", "histories", "configurations"], "every sequence of selections, any inputs, outputs and configuration of accumulators and limits, every fee that is flat by input and output",
    "The tests of the thermostat need cardano-multiplatform-lib and use ample amounts; splits that hardly pay and tokens of few units are not reached.",
    ["utxo-selection/src/algorithms/thermostat.rs"],
    [("changes by token, limits, splitting", "utxo-selection/src/algorithms/thermostat.rs: balance_excess_of_asset, split_accumulators")],
    PRED, "Conservation and limits are decided from the result, by an own fee model; sampled, up to 44 inputs. Which changes are made is left open.",
    state=[("accumulators", "change outputs by token", "utxo-selection/src/algorithms/thermostat.rs: changes, extra_changes")],
    observe=["Thermostat's select_inputs and available_inputs"],
)
prop(
    "C30", "A wallet's payments lose and make nothing",
    "Over any history of payments from a UTxO store, each selected by any of the algorithms, balanced by a change balancer and applied to the store, every payment is balanced, spends only outputs the store holds, and pays at least the required fee. The store's holdings of every token change by exactly what was paid and the fees.",
    ["histories"], "every history of income and payments, with any choice of algorithm, balancer and outputs that must be spent",
    "The tests combine a selection and a balancer twice, without fees, and apply neither.",
    ["utxo-selection/src/algorithms/largest_first.rs", "utxo-selection/src/algorithms/random_improve.rs", "utxo-selection/src/algorithms/thermostat.rs", "utxo-selection/src/algorithms/balance_change_single_output.rs", "utxo-selection/src/common.rs", "core/src/utxo_store.rs"],
    [("composition of selections", "utxo-selection/src/common.rs: InputOutputSetup, InputSelectionResult")],
    MODEL, "Totals by token are the model; sampled histories of up to 10 payments.",
    observe=["select_inputs of all the algorithms, UTxOStore"],
)
prop(
    "C31", "The multiverse source hands out only settled blocks, without gaps",
    "Whatever forks up to the confirmation depth the node goes through, the blocks handed out form one chain without gaps, each at least as deep as configured when handed out, so none is ever rolled back; once the node is followed to its tip, everything deep enough has been handed out. Pulling again from the same point gives the same block, also after a restart from the stored multiverse.",
    ["histories", "crash_points"], "every history of a node's growth and forks, of pulls and of restarts",
    "The tests follow one linear chain without forks or restarts.",
    ["blockchain-source/src/multiverse/mod.rs", "multiverse/src/lib.rs"],
    [("confirmed block and checkpoints", "blockchain-source/src/multiverse/mod.rs: pull")],
    MODEL + " of a node", "The node is a model of what CardanoSource gives; forks are at most as deep as the confirmation depth. Built from a mirror without the items that need cardano-multiplatform-lib.",
    observe=["Source::pull of MultiverseSource"],
    crate="mv",
)
prop(
    "C32", "The fork handling source keeps its consumer on the node's chain",
    "Whatever forks up to the confirmation depth the node goes through, every block handed out is the child of the consumer's last one and every rollback leads to a block the consumer has, so that once the node is followed to its tip the consumer has exactly the node's chain. This holds from any starting point, given or not, and after a restart from the stored multiverse even if the consumer had not kept the last events.",
    ["histories", "crash_points"], "every history of a node's growth and forks, of pulls and of restarts",
    "The test follows three fixed branches without restart.",
    ["blockchain-source/src/multiverse/rollback.rs", "multiverse/src/lib.rs"],
    [("common ancestor of the last block and the new one", "blockchain-source/src/multiverse/rollback.rs: pull")],
    MODEL + " of a node", "As C31. One known finding: a restart before the consumer took the first block.",
    observe=["Source::pull of ForkHandlingSource"],
    crate="mv",
)

prop(
    "C33", "Identifiers are their text, however they were made",
    "An address, an identifier of a block, transaction, token, policy or asset is shown, compared, ordered, hashed and looked up in maps by its text alone, whether that was borrowed or owned, and is that text in JSON in both directions; JSON that is no text is refused. The reserved identifiers (main token, main asset, absent transaction) equal exactly the identifiers of the same text, and a pointer to an output is its transaction and index together.",
    ["inputs"], "every text and every kind of identifier",
    "The tests use fixed identifiers and never compare borrowed with owned ones or use odd texts.",
    ["core/src/address.rs", "core/src/asset_name.rs", "core/src/block_id.rs", "core/src/policy_id.rs", "core/src/token_id.rs", "core/src/tx/transaction_id.rs", "core/src/tx/utxo.rs"],
    [("identifiers over Cow", "core/src/block_id.rs and its siblings"), ("pointer", "core/src/tx/utxo.rs: UtxoPointer")],
    VALUES, "Compared with the texts themselves; sampled.",
    observe=["Display, AsRef, Eq, Ord, Hash, serde, FromStr of the identifiers"],
)
prop(
    "C34", "Events of a Cardano network keep what they carry",
    "Mapping an event by its block, or by its tip, calls the function once exactly for an event of that kind, passes on its result or its error, and leaves an event of the other kind as it was; only a tip is the tip of the chain. A block event gives its own identifier, parent, number and point to continue from, and comes back the same, with all its fields and bytes, from JSON and from a stored multiverse.",
    ["inputs"], "every block event and every tip",
    "No test maps or stores an event.",
    ["blockchain-source/src/cardano/event.rs", "multiverse/src/lib.rs"],
    [("mapping, traits, serialisation", "blockchain-source/src/cardano/event.rs: CardanoNetworkEvent, BlockEvent")],
    VALUES, "Compared with the values the event was made of; sampled. Built with stand-ins for cardano-multiplatform-lib.",
    observe=["CardanoNetworkEvent, BlockEvent, Multiverse"],
    crate="net",
)
prop(
    "C35", "The Cardano source hands out the node's chain from where it is asked to",
    "A request for blocks hands out, after a tip event, exactly the node's blocks above the highest of the given points on its chain, in order, each with the node's bytes and the identifier, parent, number, slot and epoch these say, and nothing if there are none. Whatever the node does (forks, closed or refused connections, unreadable blocks, messages in any fragments) a pull returns, what was handed out before a failure is right, and later pulls connect again and go on. Clearing the buffer drops what was not handed out, and stopping ends the task and closes the connection.",
    ["histories", "fault_sequences"], "every history of a node's growth, forks and failures, of pulls from any points, of clearings and the stop",
    "The tests of the source need a real node and are not run.",
    ["blockchain-source/src/cardano/mod.rs", "blockchain-source/src/cardano/event.rs", "blockchain-source/src/cardano/point.rs"],
    [("task that serves requests over a connection", "blockchain-source/src/cardano/mod.rs: request_handler"), ("reading of blocks", "blockchain-source/src/cardano/event.rs: BlockEvent::from_serialized_block")],
    MODEL + " of the source, against a mock node on the loopback interface with injected faults", "Blocks are in the format of the stand-in for cardano-multiplatform-lib (which cannot be fetched); the reading of real blocks is not covered. Sampled histories.",
    observe=["CardanoSource::connect, pull, clear_buffers, stop"],
    crate="net",
)
prop(
    "C36", "Sources over a failing node still give their consumer one chain",
    "Over a real connection to a Cardano node that grows, forks up to the confirmation depth and breaks its connections, a consumer of the multiverse source gets each settled block once, in order and as the node sent it, and one of the fork handling source always has a chain that follows from the events it got. After any faults, restarts from the stored multiverse and lost events, once the node is reachable the consumer reaches the node's chain.",
    ["histories", "crash_points", "fault_sequences"], "every history of a node's growth, forks and failures, and of a consumer's pulls and restarts",
    "The tests of these sources use a source in memory that never fails.",
    ["blockchain-source/src/multiverse/mod.rs", "blockchain-source/src/multiverse/rollback.rs", "blockchain-source/src/cardano/mod.rs", "multiverse/src/lib.rs"],
    [("points known to the multiverse asked of the node", "blockchain-source/src/multiverse/mod.rs: pull"), ("buffered blocks of a request in flight", "blockchain-source/src/cardano/mod.rs: pull")],
    MODEL + ", against a mock node on the loopback interface with injected faults", "As C31, C32 and C35, in combination. Forks together with blocks that share their parent's number (Byron boundary blocks) are out of domain.",
    observe=["Source::pull of MultiverseSource and ForkHandlingSource over CardanoSource"],
    crate="net",
)
prop(
    "C37", "Assumed fees and sizes cover the transaction they stand for",
    "The fee the thermostat's estimator requires is at least the network's linear fee of the encoded transaction with the inputs (index up to 255), the outputs (of up to one token) and the magic it was told of, the plan's script and a quorum of signatures, and exceeds it by no more than a fixed size for each of them; its size is at least that transaction's. Each input and output raises the fee by what was announced, in any order. The least value it gives for an output is one the ledger accepts.",
    ["inputs", "configurations"], "every network, plan, magic and sequence of inputs and outputs",
    "The tests of the fees need cardano-multiplatform-lib, are not run, and use one transaction of each kind.",
    ["cardano-utils/src/network_id.rs", "utxo-selection/src/estimators/thermostat_estimator.rs"],
    [("assumed sizes", "cardano-utils/src/network_id.rs: ASSUMED_SIZE_*"), ("running fee and size", "utxo-selection/src/estimators/thermostat_estimator.rs")],
    VALUES, "Compared with the encoding of the transaction, by a stand-in for cardano-multiplatform-lib that gives the sizes its own tests expect; sampled. One known finding: the least value for an output with a token.",
    observe=["ThermostatFeeEstimator, NetworkInfo"],
    crate="cml",
)
prop(
    "C38", "An output converted to the ledger's form is the same output",
    "Converting an output, held or to be made, to the ledger's form keeps pointer, address, amount, the total of every token, datum, script and the witness its credentials ask for, however the amounts are written and if a token is listed in parts; converting back gives the same output with the CIP-14 fingerprints, and both conversions in a row change nothing. What the ledger cannot hold (a malformed hash, address, policy or name, an amount beyond 64 bits, unreadable extra data, a script of another hash) is an error and never a different output.",
    ["inputs"], "every output, its credentials and everything malformed in one place",
    "No test converts an output.",
    ["cardano-utils/src/utxo.rs", "cardano-utils/src/payment_credentials.rs", "cardano-utils/src/cip14.rs"],
    [("tokens by fingerprint, values in 64 bits", "cardano-utils/src/utxo.rs: tokens_to_csl_value, csl_value_to_tokens")],
    VALUES, "Compared with the ledger's form built from the case; integer amounts, fingerprints that are the token's; over a stand-in for cardano-multiplatform-lib. Sampled.",
    observe=["utxo_details_to_cml_input, utxo_details_from_io, utxo_builder_to_cml_output, utxo_builder_from_output"],
    crate="cml",
)
prop(
    "C39", "A selected Cardano transaction pays the ledger's fee",
    "Whatever algorithm, change balancer and estimator (the thermostat's, or the one over the transaction builder) select a transaction, its inputs equal its outputs, changes and fee for every token in the ledger's whole amounts, and its fee is at least the network's linear fee of the encoded and signed transaction. Adding an input or output to the estimator raises the required fee by what it announced.",
    ["inputs", "configurations"], "every wallet, payment, network, credentials, algorithm and configuration",
    "One test selects with the builder's fees, from one output, and looks at the balance only.",
    ["utxo-selection/src/estimators/cml_fee_estimator.rs", "utxo-selection/src/estimators/thermostat_estimator.rs", "utxo-selection/src/algorithms/thermostat.rs", "utxo-selection/src/algorithms/largest_first.rs", "utxo-selection/src/algorithms/random_improve.rs", "utxo-selection/src/algorithms/balance_change_single_output.rs", "utxo-selection/src/algorithms/balance_change_fee.rs", "cardano-utils/src/utxo.rs"],
    [("fees from the builder", "utxo-selection/src/estimators/cml_fee_estimator.rs")],
    PRED, "The transaction is built from the selection and encoded, over a stand-in for cardano-multiplatform-lib; with the thermostat's estimator for outputs of up to one token. Sampled. One known finding: the thermostat's changes with tokens over the builder's fees.",
    observe=["select_inputs over CmlFeeEstimator and ThermostatFeeEstimator"],
    crate="cml",
)
prop(
    "C40", "Plans and network configurations mean what their JSON says",
    "A multisig plan read from JSON has the quorum and the keys in their order, its script is their n-of-k in the ledger's encoding, its hash that script's and its address the enterprise address of the hash on the network asked for; keys that are not 28 bytes of hex are refused. A network has exactly the identifier, magic, linear fee, deposits and limits configured, for the main and test network the known ones, in what it tells and in the builder's configuration, and the assumed costs are the linear fee of the assumed sizes. Missing or unknown fields are refused.",
    ["inputs", "configurations"], "every plan and network configuration",
    "No test reads a plan or a custom network.",
    ["cardano-utils/src/multisig_plan.rs", "cardano-utils/src/network_id.rs"],
    [("script and address", "cardano-utils/src/multisig_plan.rs: to_script, hash, address"), ("configuration", "cardano-utils/src/network_id.rs: NetworkInfo")],
    VALUES, "Encodings, hashes and addresses are written by the check itself; custom parameters within 64 bits; over a stand-in for cardano-multiplatform-lib. Sampled.",
    observe=["MultisigPlan, NetworkInfo"],
    crate="cml",
)

prop(
    "C41", "A wallet's first address is the account's, and used if the chain says so",
    "The first-address tool, given an account's extended public key and a network, prints the base address on that network of the payment key 0/0 and the stake key 2/0 derived from it, asks that network's backend about this address as of its latest block, and prints that the address was used exactly when the backend lists it. A malformed key, an unknown network or an answer it cannot read is an error, never an answer.",
    ["inputs"], "every account key, network and answer of the backend",
    "The tool has no test.",
    ["cardano-cli-tools/cip1852-first-address/src/main.rs"],
    [("derivation and address", "cardano-cli-tools/cip1852-first-address/src/main.rs")],
    VALUES, "The tool is run as built, over stand-ins for cardano-multiplatform-lib, reqwest and miniserde; keys and addresses are derived by the check itself. Sampled.",
    observe=["standard output, exit status and requests of cip1852-first-address"],
    crate="tools",
)
prop(
    "C42", "The net fetcher prints the chain after a point",
    "The net fetcher prints, one line each, in the chain's order and once, number, id, slot and bytes of the blocks the node has after the point asked for (or after the network's known start) up to the node's tip. If the chain grows or forks meanwhile or a connection breaks, each block it prints still follows the one before it on the node's chain. Nothing is printed for an unknown or malformed point, an unknown network, or in place of a block that cannot be read, and unknown networks and unreadable blocks are failures.",
    ["histories", "fault_sequences"], "every chain, point and failure of the node",
    "The tool has no test.",
    ["cardano-cli-tools/cardano-net-fetcher/src/main.rs", "blockchain-source/src/cardano/mod.rs"],
    [("events printed", "cardano-cli-tools/cardano-net-fetcher/src/main.rs")],
    MODEL + ", against a mock node on the loopback interface with injected faults", "The tool is run as built, against one mock node; sampled.",
    observe=["standard output and exit status of cardano-net-fetcher"],
    crate="tools",
)
prop(
    "C43", "The oura fetcher prints what the node tells it",
    "The oura fetcher, connected to a node over TCP or a Unix socket, prints every block the node tells it of from the point asked for on, in that order and once for each time told, also where the chain grows or forks meanwhile, with the block's number, hash, slot and bytes. A network is known by its name or by its magic; an unknown one or a malformed point is refused before anything is asked.",
    ["histories", "configurations"], "every chain, point, network and address",
    "The tool has no test.",
    ["cardano-cli-tools/oura-block-fetcher/src/main.rs"],
    [("events printed", "cardano-cli-tools/oura-block-fetcher/src/main.rs")],
    MODEL + ", against a mock node on the loopback interface", "The tool is run as built, with oura from the cache, against one mock node; sampled.",
    observe=["standard output and exit status of oura-block-fetcher"],
    crate="tools",
)
prop(
    "C44", "Configurations mean what their JSON says",
    "A precision rule, a best-block rule and a keyed log's configuration written as JSON have their published field names and read back the same; an era and the thermostat's configuration are read from JSON field by field, whatever the numbers, texts or order of fields. Fields left out take their default where there is one (a keyed log's) and are refused otherwise; unknown fields of a keyed log's or the thermostat's configuration and fields of another type are refused.",
    ["inputs", "configurations"], "every configuration",
    "No test reads a configuration.",
    ["indexed-log-map/src/config.rs", "multiverse/src/lib.rs", "core/src/value.rs", "blockchain-source/src/cardano/time.rs", "utxo-selection/src/algorithms/thermostat.rs"],
    [("the formats", "indexed-log-map/src/config.rs: IndexedLogMapConfig; multiverse/src/lib.rs: BestBlockSelectionRule; core/src/value.rs: Rule; blockchain-source/src/cardano/time.rs: Era; utxo-selection/src/algorithms/thermostat.rs: ThermostatAlgoConfig")],
    VALUES, "Compared with the fields generated; what the thermostat makes of its numbers is C29's, networks and plans are C40's. Sampled.",
    observe=["serde of the five types, their public fields"],
)
