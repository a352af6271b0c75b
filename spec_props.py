prop("C01", "The key-value store is an ordered map with exact scans and undo",
     "After any sequence of writes and deletions, reading a key gives the last value written to it, deleting reports whether the key existed, and scans of a range or of a prefix give exactly the matching entries of the moment the scan was opened, in ascending byte order, whatever is written while they are open. "
     "A group of writes that is undone leaves exactly the content there was before the group, and the bytes given or returned never alias the stored ones.",
     ["histories", "inputs"],
     "every sequence of set, delete, get, has, range and prefix scans and groups kept or undone, over byte string keys and values which fit the store, with scans left open across writes",
     "runtime/kv has one test of a few fixed keys; range ends, prefixes of prefixes, 0xff bytes, open iterators and undone groups need many generated sequences compared with a map.",
     ["runtime/kv/badger.go", "runtime/kv/journal.go", "runtime/kv/kv.go"],
     [("Badger.Set/Get/Has/Delete/Iterate/IteratePrefix", "runtime/kv/badger.go"), ("Journal.Begin/Rollback/Commit", "runtime/kv/journal.go")],
     "model-based property testing of operation sequences against an ordered map",
     "Sequences of up to 40 operations with a reference ordered map as the oracle.",
     observe=["return values of the store", "full scans"])

prop("C02", "The object store is a map from primary keys to objects, type by type",
     "An object can be created exactly when its type is registered and there is none of that type with its primary key, and be read, updated and deleted exactly when there is one; a read gives exactly the last object written under that type and key. "
     "An operation that fails leaves everything stored as it was, and objects of different types never affect each other, whatever their names and keys are.",
     ["histories", "inputs", "configurations"],
     "every sequence of create, update, delete and get over registered types with primary keys of every supported kind, singletons, any set of indexes, names that are prefixes of one another, and objects that can't be saved",
     "runtime/orm/store_test.go exercises one fixed type and three or four calls; collisions between types and keys and partial failures only show in generated combinations.",
     ["runtime/orm/store.go", "runtime/orm/objects/store.go", "runtime/orm/indexes/store.go", "runtime/orm/schema/schema.go"],
     [("Store.Create/Get/Update/Delete", "runtime/orm/store.go"), ("objects.Store", "runtime/orm/objects/store.go"), ("Schema.EncodePrimaryKey", "runtime/orm/schema/schema.go")],
     "model-based property testing over generated protobuf types against a map per type",
     "Up to 4 generated types and 25 operations per case; the reference is a map per type.")

prop("C03", "Lists return exactly the objects that match every selector and the range",
     "Listing a type with one or more selectors on indexed fields, given as values or as texts, returns exactly the stored objects of that type whose fields have all of the selected values, as they were last written, and a start and end return the corresponding contiguous part of that same result. "
     "Objects never show up under values they no longer have nor after they were deleted, and lists on fields that are not indexed or with values that do not fit the field are errors.",
     ["histories", "inputs", "configurations"],
     "every history of creations, updates and deletions over generated types, every conjunction of selectors and every start and end",
     "the index tests use one type and a couple of objects; stale index entries after updates, values that prefix other values, and conjunctions depend on the history and the values.",
     ["runtime/orm/store.go", "runtime/orm/indexes/store.go", "runtime/orm/indexes/list.go", "runtime/orm/indexes/types.go", "runtime/orm/iterator.go"],
     [("Store.List", "runtime/orm/store.go"), ("Store.Index/ClearIndexes", "runtime/orm/indexes/store.go"), ("list keys", "runtime/orm/indexes/list.go")],
     "model-based property testing, naive filtering of all the objects as the oracle",
     "Histories over generated types, each list compared with filtering the reference map.")

prop("C04", "Encoded keys are injective and deterministic for every value",
     "For every supported kind of field, two values get the same encoded key exactly when they are equal, the same value gets the same key through every way of giving it (object, value, native Go value, text), and encoding never changes with time or instance. "
     "Values of another type and texts which do not represent a value of the kind are errors and never crash or encode as some other value.",
     ["inputs"],
     "every value of every supported kind (bool, int32, int64, uint32, uint64, string, bytes), all pairs of them, and every text",
     "the tests compare a handful of encodings with fixed bytes; injectivity and the agreement of the ways to encode are statements about all pairs of values.",
     ["pkg/protoutils/kindencoder/kindencoder.go", "runtime/orm/schema/schema.go", "runtime/orm/schema/indexer.go"],
     [("KindEncoder implementations", "pkg/protoutils/kindencoder/kindencoder.go"), ("Indexer.Encode/EncodeInterface/EncodeString", "runtime/orm/schema/indexer.go"), ("Schema.EncodePrimaryKey", "runtime/orm/schema/schema.go")],
     "property testing of pairs of values plus metamorphic comparison of the ways to encode, and an independent text parser",
     "Generated values biased to neighbours and boundaries, plus sweeps of small ranges.")

prop("C05", "State object definitions are accepted exactly when they can work",
     "Registering a type of state object succeeds exactly when its definition is well formed: either a singleton without keys or one primary key, keys which name existing single-valued fields of a supported kind by their JSON names, without duplicates, in a type whose fields are of supported kinds without maps, and not registered before. "
     "A registered type is found by its name with its own key and index definition, and a failed registration changes nothing.",
     ["configurations", "inputs"],
     "every generated message type (fields of all kinds, repeated, maps, nested messages) with every definition over it, and every sequence of registrations",
     "the schema tests try a few definitions of one test type; acceptance is a predicate over all pairs of type and definition.",
     ["runtime/orm/schema/schema.go", "runtime/orm/schema/registry.go", "runtime/orm/schema/indexer.go", "pkg/protoutils/desc/desc.go"],
     [("NewSchema", "runtime/orm/schema/schema.go"), ("Registry.AddObject/Get", "runtime/orm/schema/registry.go")],
     "property testing of generated protobuf descriptors against an independent acceptance predicate",
     "Up to tens of thousands of generated types and definitions per run.")

prop("C07", "Coin arithmetic is exact multiset arithmetic and never yields malformed coins",
     "Adding two sets of coins gives for every denomination the exact sum and safely subtracting gives the exact difference, or an error exactly when the operands are malformed, the result would be negative or it does not fit in 255 bits. "
     "Results are sorted, without duplicates nor zero amounts, and operands are never modified.",
     ["inputs"],
     "every pair of sets of coins, including huge amounts, zeros, leading zeros, negative and malformed amounts, bad, unsorted and repeated denominations",
     "core/coin has one test of one sum; exactness is a statement about all pairs of sets and amounts of any size.",
     ["core/coin/v1alpha1/coin.go"],
     [("Add, SafeSub", "core/coin/v1alpha1/coin.go")],
     "differential property testing against math/big arithmetic",
     "Generated pairs of coin sets against arbitrary precision arithmetic.")

prop("C08", "Coins are conserved and balances equal exactly what transfers add up to",
     "Over any history of blocks of transactions, every address' balance is exactly what the initial balances, the fees of the admitted transactions and the transfers of the successful ones add up to: fees go in full to the fee collector once per admitted transaction, transfers move exactly their amount, and a transfer that can't be covered moves nothing. "
     "The sum of all balances never changes, and no balance is ever negative or malformed.",
     ["histories", "inputs"],
     "every history of valid, invalid and adversarial transactions (multiple messages and signers, self transfers, repeated denominations, huge and malformed amounts, explicit fee payers) over any genesis",
     "x/bank's test makes one transfer; conservation is an invariant over all histories and amounts, including failures in the middle of a transaction.",
     ["x/bank/handler.go", "x/bank/extensions.go", "x/distribution/extensions.go", "core/coin/v1alpha1/coin.go", "runtime/abci.go", "runtime/runtime.go"],
     [("SendCoinsHandler", "x/bank/handler.go"), ("FeeDeduction", "x/distribution/extensions.go"), ("DeliverTx", "runtime/abci.go")],
     "stateful model-based testing of whole applications through ABCI against a reference ledger",
     "Histories of up to 25 transactions over random genesis states against a reference ledger.",
     state=[("Balance", "the coins of an address", "x/bank/v1alpha1"), ("fee_collector", "the address that gets the fees", "x/distribution/extensions.go")])

TXFILES = ["x/authn/extensions.go", "x/authn/authenticator.go", "x/authn/ctrl_admission.go", "x/authn/ctrl_state_transition.go",
           "x/authn/tx/decoder.go", "x/authn/tx/tx.go", "x/distribution/extensions.go", "x/bank/extensions.go", "runtime/abci.go", "runtime/runtime.go"]

prop("C09", "Only its owner's signature can take coins out of an address",
     "The balance of an address only ever decreases because of a transaction which carries a valid signature of that address' own key, made for this chain, for the address' account number and for its sequence at that time, over exactly what is executed. "
     "Transactions that spend the coins of somebody who did not sign this way, as sender of a transfer or as payer of the fee, alone or among other messages, are refused and move nothing.",
     ["histories", "inputs"],
     "every history of honest and forged transactions: stolen and replayed signatures, other chains, keys and sequences, messages, fees or payers changed after signing, missing and reordered signatures, unsigned senders among signed ones",
     "the tests have one honest transfer and hardly any forged one; who can spend is a statement about all the transactions an attacker can build from what they saw.",
     TXFILES,
     [("sigVerifier, accountExists", "x/authn/extensions.go"), ("senderSigned", "x/bank/extensions.go"), ("FeeDeduction", "x/distribution/extensions.go")],
     "stateful property testing with an attacker that forges transactions from the ones it has seen, and an independent verification of signatures as the oracle for every balance that decreases",
     "Histories with about one half of forged transactions; signatures are judged by the harness with its own encoding of what is signed.")

prop("C10", "A transaction is admitted exactly when it is properly signed and can pay",
     "A transaction is admitted exactly when every signer's account exists, each of them signed these exact bytes in direct mode with the key of that account for this chain, account number and current sequence with a canonical 64 byte signature, the timeout height is not passed, the memo and signatures respect their limits, senders of transfers signed, and the payer covers the fee. "
     "Anything else is refused without any change to the state, fees or sequences, and properly made transactions are never refused.",
     ["histories", "inputs"],
     "every transaction a client or an attacker can build over accounts with and without a known key, in any state of the chain: wrong keys, numbers, sequences, chains, high-S and mangled signatures, timeouts around the current height, memos around the limit, fees around the balance",
     "tests check one good and few bad transactions; admission is a predicate with a dozen of clauses over all transactions and states.",
     TXFILES,
     [("admission handlers", "x/authn/extensions.go"), ("FeeChecker", "x/distribution/extensions.go"), ("DeliverTx, CheckTx", "runtime/abci.go")],
     "stateful model-based property testing of ABCI transactions against an admission predicate, with single defects injected in valid transactions",
     "Valid transactions with none or one defect in random histories; the model predicts admission and the whole state.")

prop("C11", "A transaction takes effect at most once and on one chain only",
     "The same signed transaction, or its signatures put in another one, takes effect at most once whatever happened in between: replays in the same or later blocks, after failures, after other transactions, are refused and change nothing. "
     "A transaction signed for one chain never has any effect on a chain with another identifier, even when accounts, numbers and sequences are the same.",
     ["histories", "configurations"],
     "every history of blocks in which past transactions are replayed at any later point, to the same chain and to twins with other identifiers, and out of order submissions",
     "tests do not replay; at-most-once is a statement over whole histories.",
     TXFILES,
     [("sigVerifier, increaseSequence", "x/authn/extensions.go"), ("sign bytes", "x/authn/tx/tx.go")],
     "stateful property testing with replays on one chain and on twin chains, counting effects per transaction",
     "Histories over two chains with the same accounts; every past transaction may come back at any point.")

prop("C14", "Checks, queries and rejected transactions never change the state",
     "Checking a transaction, querying, asking for information and delivering a transaction that is not admitted leave the whole stored state exactly as it was, whatever their input is. "
     "Checking a transaction gives the verdict that delivering it right then would give at admission: it accepts exactly those which delivery would admit.",
     ["histories", "inputs"],
     "every history of blocks interleaved with checks and queries of valid, invalid, forged and garbage inputs at any point, including the middle of a block",
     "tests never compare the whole state around a check or a query, and never the verdict of checking with that of delivering.",
     ["runtime/abci.go", "runtime/runtime.go"] + TXFILES[:1],
     [("CheckTx, Query, Info, DeliverTx", "runtime/abci.go"), ("runPostAdmissionAuthn, atomically", "runtime/runtime.go")],
     "metamorphic property testing with full dumps of the store before and after each call, and the differential of CheckTx with DeliverTx",
     "Full dumps of the store around every call in random histories.")

prop("C18", "Accounts have unique numbers, exact sequences and keys which never change",
     "Accounts get consecutive unique numbers in order of creation, start at sequence zero, and get exactly one more per admitted transaction they sign and for no other reason; the key of an account is set by its first admitted transaction or at its creation and never changes; one which could not sign a transaction, of another type or size, is refused, so every account has a JSON form. "
     "An account is created when an address first receives coins or by request, once per address: a second creation is refused and changes nothing, and every account is bound to the role of external accounts.",
     ["histories"],
     "every history of blocks of valid, failing and rejected transactions with several signers, creations by message and by transfer in any order, including transactions that fail after having created accounts",
     "the tests create one or two accounts; numbers and sequences are accumulated over histories with failures in between.",
     ["x/authn/ctrl_state_transition.go", "x/authn/ctrl_admission.go", "x/authn/extensions.go", "x/authn/module.go", "x/authn/genesis.go", "x/bank/handler.go", "core/rbac/ctrl_bind.go"],
     [("CreateAccountController", "x/authn/ctrl_state_transition.go"), ("increaseSequence, setPubKeys", "x/authn/extensions.go"), ("SendCoinsHandler", "x/bank/handler.go")],
     "stateful model-based testing through ABCI with a reference model of the accounts, numbers, keys and role bindings",
     "Random histories; accounts, numbers, keys, sequences and bindings compared with the model after every step.")

prop("C20", "Replicas given the same blocks agree on every byte of state and response",
     "Two instances of the same application which start from the same genesis and are given the same blocks have exactly the same stored state and give exactly the same responses (but for the texts of logs, which are for people) at every step, whatever else each of them was asked in between and whenever they were started. "
     "Nothing depends on time, randomness, the order of maps, memory of what was checked or queried, or how modules were built.",
     ["histories", "schedules"],
     "every history of blocks, with different interleavings of checks and queries on each of the replicas",
     "determinism is about pairs of executions; a unit test has only one of them, and map iteration differs only now and then.",
     ["runtime/abci.go", "runtime/runtime.go", "runtime/builder.go", "x/bank/handler.go", "core/coin/v1alpha1/coin.go"],
     [("BeginBlock, DeliverTx, EndBlock, Commit", "runtime/abci.go"), ("InitChain", "runtime/abci.go")],
     "differential property testing of two replicas of the same application, byte by byte",
     "Two replicas per case with random checks and queries in each.")

prop("C29", "The messages of a transaction take effect all or none, at any failure",
     "When a message of a transaction fails at any point, in its handler, its hooks or in anything they call, after any number of writes, nothing of any of the messages of that transaction remains: the state is exactly that before it plus its fees, sequences and keys. "
     "When all succeed all their effects remain, each message sees the effects of the ones before it, and a transaction that was not admitted leaves nothing at all.",
     ["histories", "crash_points", "inputs"],
     "every transaction of any number of messages whose handlers create, update and delete objects and deliver further transitions before failing at any position, over any history",
     "no test fails in the middle of a transaction after writes; the position of the failure and what was written before are arbitrary.",
     ["runtime/runtime.go", "runtime/abci.go", "runtime/kv/journal.go", "runtime/kv/badger.go"],
     [("atomically", "runtime/runtime.go"), ("Journal", "runtime/kv/journal.go"), ("DeliverTx", "runtime/abci.go")],
     "fault-injecting property testing: handlers run random scripts of writes with a failure at a random point, and a twin application without the failing messages is the oracle",
     "Random scripts of writes and nested deliveries with failures; a twin application is the oracle.")

prop("C12", "Only well-formed transactions are decoded, and nothing in them is changed",
     "The decoder accepts exactly the transactions which are well formed: every part is there and parses, no field unknown to the transaction or its messages occurs at any depth, every message and key is of a known type, there are messages, a fee and signers, each with one signature and the direct mode of signing, the payer of the fee is one of the signers, and there are no granters and no extension options other than the non critical ones. "
     "What it accepts it decodes faithfully: messages, fee, payer, signers, sequences, memo and timeout are what the bytes say, and the bytes signed are those received, byte by byte, however they were encoded.",
     ["inputs"],
     "every sequence of bytes: valid transactions in any of their encodings, transactions with one structural defect anywhere, and arbitrary mutations of them",
     "the tests decode one transaction; the inputs are arbitrary bytes from anybody on the network.",
     ["x/authn/tx/decoder.go", "x/authn/tx/decode_unknowns.go", "x/authn/tx/tx.go"],
     [("Decode", "x/authn/tx/decoder.go"), ("unknown fields", "x/authn/tx/decode_unknowns.go")],
     "structure-aware fuzzing of the decoder against an independent reference decoder, with mutation at the level of protobuf fields and of bytes",
     "Trees of protobuf fields are generated, varied and broken; a reference decoder says what has to be accepted and as what.")

prop("C13", "No input from the outside can stop or take over the application",
     "Whatever transactions, queries and blocks the application is given, in any order and at any point, it answers each with a response and never panics, hangs or gets stuck: afterwards a valid transaction of a user who had no part in it still succeeds. "
     "Messages that are not meant for users never succeed, whatever their content and whoever signs them, and a transaction which succeeds had been accepted by the check.",
     ["inputs", "histories"],
     "every sequence of transactions with any messages of any registered type with any content, signed properly or mutated, of arbitrary bytes, of queries and of block headers",
     "tests send well-formed input; a validator is exposed to arbitrary one and a single panic halts the chain.",
     ["runtime/abci.go", "runtime/runtime.go", "x/authn/extensions.go", "x/bank/handler.go", "x/distribution/extensions.go", "core/rbac/ctrl_create_role.go", "runtime/orm/store.go"],
     [("DeliverTx, CheckTx, Query, BeginBlock", "runtime/abci.go")],
     "structure-aware fuzzing of the whole application through ABCI, with messages generated from the descriptors of all registered types",
     "Random inputs of all kinds in one history per case; a final valid transfer shows the application still works.")

WORLD = ["runtime/runtime.go", "runtime/builder.go", "runtime/router.go", "runtime/client.go"]

prop("C15", "Nobody changes anything the roles do not allow, and roles stay consistent",
     "With authorization enabled, creating, updating or deleting an object and delivering a transition succeed only if every user on whose behalf it is done is bound to an existing role and one of these roles has the resource under that very verb; anything else is refused as unauthorized and changes nothing, also when it is done from within a handler, where it counts as done by the handler's module (and those it impersonates). "
     "Reading needs no role. Roles are created once, with an identifier and known resources only, subjects are bound once and to existing roles, and all of this takes effect at once.",
     ["histories", "programs"],
     "every history of role and binding changes, operations of sets of users and nested operations of modules, over any set of modules, objects, transitions and roles",
     "unit tests authorize one role and one verb; a decision depends on the whole history of roles and bindings and on who calls whom.",
     ["core/rbac/authorizer.go", "core/rbac/ctrl_create_role.go", "core/rbac/ctrl_bind.go", "core/rbac/v1alpha1/rbac.go", "runtime/authentication/user/user.go"] + WORLD,
     [("Authorizer", "core/rbac/authorizer.go"), ("CreateRole, BindRole", "core/rbac/ctrl_create_role.go"), ("authorized", "runtime/runtime.go"), ("ModuleClient", "runtime/client.go")],
     "stateful model-based testing over generated modules whose handlers run generated scripts, against a reference model of roles and bindings",
     "Generated modules, roles and histories; a model decides each operation, nested ones included, and the state is compared after each.")

prop("C16", "Genesis describes every module and gives it exactly the rights it declared",
     "After genesis the saved descriptors list all the modules in order with exactly their objects, definitions, transitions, needs and protobuf types (complete enough to rebuild the types), each module is bound to its own role which lets it deliver its own transitions and those it needs, and read, create, update and delete its own objects, and nothing else, and the role of external accounts delivers exactly the transitions which are marked as external. "
     "Modules' genesis handlers run once each in order; a transition without access control option, two modules of the same name or a handler that fails make genesis fail, and it can not run twice. Importing a state gives each module's genesis handler exactly the JSON value under its name, as it was written, once each in order up to the first failure, and anything but a JSON object is refused.",
     ["configurations", "programs"],
     "every set and order of modules, with any objects, transitions, external or not, and needs",
     "the tests have one or two modules; rights are computed from declarations of whichever modules are installed.",
     ["core/rbac/rbac_applier.go", "core/rbac/module.go", "core/rbac/v1alpha1/rbac.go", "core/runtime/module.go", "runtime/module/descriptor.go", "runtime/module/builder.go", "pkg/protoutils/desc/desc.go", "runtime/runtime.go"],
     [("PostExec", "core/rbac/rbac_applier.go"), ("InitGenesis", "runtime/runtime.go"), ("Raw", "runtime/module/descriptor.go")],
     "property testing over generated modules with generated protobuf types, mixed with those of the repository, against a model of the rights",
     "Sets of modules are generated; descriptors, roles, bindings and what each module can then do are compared with their declarations.")

prop("C17", "Handlers run once, in order, at their stage, and stop at the first failure",
     "Delivering a transition runs its admission handlers, the authorizer, the handlers before it, its only handler and those after it, each exactly once, in the order in which modules were added and declared them, with the same users and transition; the first failure stops the rest and is the outcome, as a bad request if in admission and unauthorized if by the authorizer. "
     "A transaction runs all its transaction admissions, the admissions of all its messages, its post authentication handlers and then the messages in order, and checking it only the admissions. A runtime whose modules have no name, handle a transition or own an object twice, miss a need, are two authorizers or hook into unknown transitions is not built. Admission handlers made of functions or chains of others behave as those in order.",
     ["programs", "configurations", "histories"],
     "every set of modules with any handlers at any stage, and all transitions and transactions with any nesting in which any of the handlers or the authorizer fails",
     "tests have one handler per stage; order, repetition and short circuits only show with several in several modules and failures at each of them.",
     WORLD + ["runtime/abci.go", "runtime/module/builder.go", "runtime/authorization/authorization.go"],
     [("deliver", "runtime/runtime.go"), ("DeliverTx, CheckTx", "runtime/abci.go"), ("installModules", "runtime/builder.go"), ("AdmissionChain", "runtime/statetransition/admission.go")],
     "model-based property testing with handlers which record what runs, failing at generated points, against a predicted trace",
     "Scripts decide which handler fails; the whole trace and the state are compared with the predicted ones.")

prop("C19", "Modules see the block they run in, and validator updates are reported once",
     "At every point of every block modules read the identifier of the chain, the height, and the whole header, votes and evidence of the block that was begun last, exactly as they came, and the stage is that of the last of InitChain, BeginBlock and EndBlock or of the transaction state that was set. "
     "Updates of validators are taken only at InitChain and EndBlock, only if all of them have a supported key, and the last ones taken replace the ones before; the end of each block reports exactly the ones taken since the last one was reported, in order with their keys and powers, and never again. InitChain answers with the validators it was given.",
     ["histories", "inputs"],
     "every sequence of blocks with any headers, votes and evidence, and of requests of validator updates, supported or not, at any point of them",
     "the module's only test is that genesis works.",
     ["core/abci/handlers.go", "core/abci/genesis.go", "core/abci/tendermint/abci/types.go", "runtime/abci.go"],
     [("handlers", "core/abci/handlers.go"), ("InitChain, BeginBlock, EndBlock", "runtime/abci.go"), ("FromLegacyProto, ToLegacy", "core/abci/tendermint/abci/types.go")],
     "model-based property testing of generated chains of blocks with a module which looks and asks at every point",
     "Generated headers are compared field by field; a model of the pending updates predicts what each block reports.")

prop("C21", "Queries, the RPC client and the command line read exactly what is stored",
     "For every type of object and every history of changes, the query of an object by its identifier, the Go client which talks to a node over RPC and the command line tool return exactly the JSON of the stored object, field by field, and an error for what is not there, was deleted, is of an unknown type or has an identifier which is none of the type, as well as when the node refuses. "
     "The query of the resources lists every type of object exactly once under its group and kind and nothing else, and so do the client and the command line. The command line asks exactly the node configured in the directory of the environment if it's set and otherwise in the home, and nobody if there's no valid configuration or the command is wrong.",
     ["histories", "inputs", "configurations"],
     "every set of types with any kind of primary key and fields, every history of objects, every query and every answer of a node",
     "the tests query one type; identifiers are read from text for each kind of key, and types come from whichever modules are installed.",
     ["runtime/query.go", "pkg/client/client.go", "pkg/spfcli/get.go", "pkg/spfcli/resources.go", "pkg/spfcli/config.go", "pkg/spfcli/clicontext.go", "runtime/orm/schema/registry.go"],
     [("Querier", "runtime/query.go"), ("client", "pkg/client/client.go"), ("get, resources", "pkg/spfcli/get.go")],
     "stateful property testing of generated types and objects against a model, through the query, an RPC node stand-in and the command line",
     "Generated types are stored, then read back through each way in and compared with what was put.")

prop("C22", "The REST API returns exactly what is stored, for every type and filter",
     "For every saved type of object the REST API has an address to get one by its identifier, or the singleton, and one to list them, which answer with the JSON of exactly the stored objects: the one with that identifier, and those which match all the given fields, in the store's order and within the given range; the state it shows is the current one. "
     "Anything else, as an unknown identifier, field, type or a value that can not be one of the field's, is answered with an error status and never with an object, and no request stops the server.",
     ["histories", "inputs", "configurations"],
     "every set of types, history of objects and request path and parameters",
     "the only test registers a type; values of each kind of key have to be read from text and the answers to come out of types unknown when it was compiled.",
     ["core/apiserver/router/server.go", "core/apiserver/router/types.go", "pkg/protoutils/forge/list.go", "runtime/client/orm.go"],
     [("get, list", "core/apiserver/router/server.go"), ("List", "pkg/protoutils/forge/list.go")],
     "stateful property testing of generated types, objects and HTTP requests against a model of the store",
     "Requests of all kinds are compared with what a model of the store answers.")

prop("C30", "The OpenAPI document describes the whole REST API and nothing else",
     "For every set of types of objects the document which the REST API serves about itself is valid, has exactly the paths the API answers, each with the type of its response and, for lists, the parameters to select fields and a range, and describes every message that can be reached from the types with all its fields, under the names and of the kinds they have in JSON, each once and under a name no other message has; no reference leads nowhere.",
     ["configurations"],
     "every set of types of objects with any fields, nested, repeated, optional, alternatives, enumerations, recursive and mutually recursive messages, over any packages",
     "the tests look at one document; names and recursion depend on the types which are installed.",
     ["core/apiserver/router/openapi.go", "pkg/protoutils/oas3schema/oas3schema.go", "pkg/protoutils/forge/list.go"],
     [("OpenAPI", "core/apiserver/router/openapi.go"), ("schema", "pkg/protoutils/oas3schema/oas3schema.go")],
     "property testing with generated protobuf types; an independent walk of the descriptors is the oracle",
     "Sets of types are generated; the document is read back and compared with an independent walk of their descriptors.")

prop("C23", "Services and module clients see the current state and only what they may do",
     "The services of modules are started once each, in the order of the modules, only after the whole genesis succeeded and with a client already given, up to the first which fails to start; stopping a group of them stops every one once, even if some fail, and reports all of the failures. "
     "What a service reads through its client at any time is exactly what is stored then, and nothing it does through it can change anything. A module's client does what its options say: it updates or, if asked, creates what isn't there, lists with any selectors and range, and creates and deletes exactly the object it's given.",
     ["histories", "fault_sequences", "configurations"],
     "every set of modules with services which fail to start or stop at any of them, and every history of a module's operations and of transactions with services reading and writing in between",
     "no test starts a service or uses the options of clients; order, failures and freshness depend on the set of services and the history.",
     ["runtime/services.go", "runtime/module/services.go", "runtime/client.go", "runtime/client/client.go", "runtime/client/orm.go", "runtime/runtime.go"],
     [("services", "runtime/services.go"), ("module client", "runtime/client.go"), ("ORM client", "runtime/client/orm.go")],
     "stateful property testing with generated services and injected failures, against a model of the store and of the lifecycle",
     "Services fail at generated points; what clients do and read is compared with a model.")

prop("C32", "Reading at any time, while blocks are delivered, is safe and disturbs nothing",
     "Services of modules, the REST API and ABCI queries may read at any moment, as many at the same time as they like, while transactions are delivered: there are no data races, crashes or reads that never end, and the blocks' responses and the resulting state are exactly those without readers. "
     "Every object that is read is one which was stored as such under that very key at some time, never a mixture, a part of one or another request's; objects which are not being changed are always found, by key and in every list that they match, exactly once and as they are.",
     ["schedules", "histories"],
     "every interleaving of any number of readers, by any way of reading, with every history of changes of objects and blocks of transactions",
     "no test reads and writes at the same time; what is shared between requests (caches, buffers, iterators) is wrong only in some interleavings.",
     ["runtime/orm/store.go", "runtime/orm/objects/store.go", "runtime/orm/indexes/list.go", "runtime/kv/badger.go", "runtime/client/orm.go", "runtime/services.go", "runtime/query.go", "core/apiserver/router/server.go"],
     [("Get, List", "runtime/orm/store.go"), ("iterators", "runtime/kv/badger.go"), ("handlers", "core/apiserver/router/server.go"), ("ORM client", "runtime/client/orm.go"), ("Query", "runtime/query.go")],
     "property testing of generated schedules under the race detector: readers against a writer whose changes are drawn beforehand, with every version of every object as the oracle, and an application without readers as the reference",
     "Writers and readers run together under the race detector; what's read has to be a version that was stored.")

prop("C33", "Wallets of the cosmos-sdk and the sample application work end to end",
     "Transfers made with the cosmos-sdk's own transaction builder and signed in direct mode, of any signers with any sequences, fee, payer, memo and timeout, are checked and executed exactly as the chain's rules say, and are refused without any effect whenever the cosmos-sdk itself doesn't find every signature right for this chain, account and bytes; amino JSON signatures and multisignature keys are always refused. "
     "The sample's signing helper makes, for every private key, chain, receiver and coins, always the same transaction: the transfer, signed by the key as account 0 at sequence 0 with a fee of 50 test; it refuses keys which aren't hexadecimal. The sample application has its user with its coins, and its server answers over TCP what is stored, once the chain begins, until it's stopped, which works at any moment and frees the port.",
     ["inputs", "histories", "schedules"],
     "every transaction that the cosmos-sdk can build and history of them, every key, chain and coins given to the helper, every moment at which the server is asked or stopped",
     "the tests of the sample need a running node and are never run, and the rest make their transactions with the repository's own types, so what other people's wallets send is never tried.",
     ["testapp/app/app.go", "testapp/module/module.go", "testapp/module/sign.go", "core/apiserver/module.go", "x/authn/tx/decoder.go", "x/authn/tx/decode_unknowns.go", "x/authn/extensions.go", "x/authn/crypto/crypto.go", "runtime/abci.go"],
     [("Decode", "x/authn/tx/decoder.go"), ("type aliases", "x/authn/tx/decode_unknowns.go"), ("sigVerifier", "x/authn/extensions.go"), ("Sign", "testapp/module/sign.go"), ("Start, Stop", "core/apiserver/module.go")],
     "differential and model-based property testing: transactions built, signed and verified by the cosmos-sdk against a model of the chain, and the sample application run with its server listening",
     "The cosmos-sdk builds, signs and judges; the model of the chain predicts what happens. The sample runs for real.")

prop("C24", "secp256k1 keys and signatures are exactly those of the cosmos-sdk",
     "For every secret and private key, the public key, the address and the signature of every message are the ones of the cosmos-sdk's secp256k1, deterministic and in canonical (low s) form, and a signature is accepted for a message and a public key exactly if it's a canonical 64 byte ECDSA signature of it. "
     "Keys are equal exactly if their bytes are, keys made out of secrets follow their definition, and an encoded public key is understood exactly if it's of a known type with 33 bytes.",
     ["inputs"],
     "every private key, message, signature and public key, valid or not",
     "the tests try some fixed vectors and random keys; malleated or truncated signatures and extreme keys are among all the possible ones.",
     ["x/authn/crypto/secp256k1/secp256k1.go", "x/authn/crypto/secp256k1/secp256k1_nocgo.go", "x/authn/crypto/crypto.go", "x/authn/crypto/types.go"],
     [("Sign, VerifySignature", "x/authn/crypto/secp256k1/secp256k1_nocgo.go"), ("GenPrivKeyFromSecret, Address, Equals", "x/authn/crypto/secp256k1/secp256k1.go"), ("resolver", "x/authn/crypto/crypto.go")],
     "differential property testing against the cosmos-sdk's implementation and the definition of ECDSA, with mutated signatures and keys",
     "Generated keys, messages and signatures, right and altered, compared with two references.")

prop("C25", "ECDSA keys of any curve keep their identity through encoding",
     "For every private key of the supported NIST curves the encoded private and public keys have their fixed sizes and decode to equal keys with the same address, also when decoded into a key which was another one before; the address is the one of the type's name and the key; signatures verify exactly with their own key and message, and bytes which aren't those of a key of that curve are refused and leave the key as it was.",
     ["inputs"],
     "every curve, private key, message, signature and byte string, and keys in any previous state",
     "the tests use random keys; sizes of small numbers, decoding over used keys and byte strings which are nearly points are not in them.",
     ["x/authn/crypto/internal/ecdsa/pubkey.go", "x/authn/crypto/internal/ecdsa/privkey.go"],
     [("PubKey", "x/authn/crypto/internal/ecdsa/pubkey.go"), ("PrivKey", "x/authn/crypto/internal/ecdsa/privkey.go")],
     "property testing with extreme and random keys against crypto/elliptic and the definition of the encoding, through an overlay",
     "Keys at the ends of their range and random ones, round trips, and mutated encodings.")

prop("C26", "Protobuf helpers are right for every graph of files and messages",
     "For every set of files that import each other the dependencies of one are exactly all the files it needs, directly or not, once each and in an order in which they can be registered. "
     "Whether a message contains a map anywhere inside, or one of given kinds of field among its own fields or in its maps, is answered right also for recursive messages. "
     "The list type made for a message holds any number of them, encodes as a repeated field and as a JSON array called list and decodes back to the same; conversions between texts and bytes keep the content.",
     ["inputs", "configurations"],
     "every graph of imports and of messages, also recursive, with any kinds of fields, and any lists",
     "the tests look at the files of the repository; diamonds of imports and recursion depend on the shape of the graph.",
     ["pkg/protoutils/desc/desc.go", "pkg/protoutils/forge/list.go", "pkg/conv/string.go"],
     [("Dependencies, HasMap, HasKind", "pkg/protoutils/desc/desc.go"), ("List", "pkg/protoutils/forge/list.go")],
     "property testing over generated graphs of files and messages with an independent reachability as the oracle, and round trips",
     "Generated file and message graphs; registration in the order given is attempted for real. One known finding is listed in known_findings.txt.")

prop("C27", "Generated clients do exactly what they are asked, for every declaration",
     "For every protobuf file which declares state objects with a text or bytes primary key, or singletons, and state transitions (with names which are also names in Go), code is generated if and only if it's requested, always the same, and compiles: every type says its group, kind and role and makes new empty ones, every object has the schema of its declaration, and the client set has a client of each object and an execution of each transition and nothing else. "
     "Each of its operations reaches the runtime's client exactly once, as that operation with exactly the given identifier, object and options, and the object found, the objects listed or the error come back. Declarations that can't be, as both an object and a transition, or no or an impossible primary key, generate nothing. The client sets of the modules of the repository are such.",
     ["inputs", "configurations"],
     "every set of files with any messages declared, imports among them and files requested; every operation with any arguments, options and outcomes",
     "there are no tests of the generator, and those of the modules use some of the methods of the generated clients.",
     ["pkg/modulecodegen/codegen.go", "pkg/modulecodegen/api_definition.go", "pkg/modulecodegen/schema.go", "pkg/modulecodegen/util.go", "x/authn/v1alpha1/authn.starport.go", "x/bank/v1alpha1/bank.starport.go", "x/crisis/v1alpha1/crisis.starport.go", "core/rbac/v1alpha1/rbac.starport.go", "core/abci/v1alpha1/abci.starport.go", "core/runtime/v1alpha1/module.starport.go", "testdata/testmodule/v1/testmodule.starport.go"],
     [("PluginRunner", "pkg/modulecodegen/codegen.go"), ("genSchema", "pkg/modulecodegen/schema.go"), ("client sets", "x/authn/v1alpha1/authn.starport.go")],
     "property testing of generated declarations: the generated code is compiled and driven against a recording client, whose records are the oracle",
     "120 files per quick run are generated, compiled and driven by reflection; nothing compares the text of the code.")

prop("C28", "Every failure is reported with the code of its kind, and success only as success",
     "The response to a transaction has code 0 exactly if it succeeded. The code of a failure is that of the kind of its error, however many times and in whichever way it was wrapped: not found, already existing, bad request or failed precondition, and otherwise the general one; failures of admission and post authentication handlers are bad requests. The response's codespace is the runtime's and its log has the text of the error. "
     "The check of a transaction answers the same for everything that it looks at.",
     ["inputs", "histories"],
     "every error, wrapped in any way, at every stage of every message of a transaction, and every failure of the store",
     "tests look at errors returned by Go calls, not at responses, and at few of them.",
     ["runtime/errors/errors.go", "runtime/abci.go", "runtime/runtime.go", "runtime/client.go"],
     [("ToABCIResponse", "runtime/errors/errors.go"), ("DeliverTx, CheckTx", "runtime/abci.go")],
     "property testing with generated chains of errors injected at generated stages, against the kind that was put in",
     "Errors of each kind are wrapped and injected at every stage of generated transactions.")

prop("C31", "Sets of users have exactly the users they were made of",
     "A set of users made of names, of users or as the union of other sets, also empty and missing ones, has exactly those users, each listed once with what is attached to it, says that it has a list of names exactly if all of them are in it, compares names byte by byte, and never changes with what it was made of, with other sets or with its lists.",
     ["inputs"],
     "every list of names and users, every union of such sets, and every question",
     "there are no tests of sets of users; unions, duplicates and aliasing need combinations of sets.",
     ["runtime/authentication/user/user.go"],
     [("NewUsers, NewUsersFromString, NewUsersUnion", "runtime/authentication/user/user.go")],
     "property testing of generated sets and unions against sets of names",
     "Small sets are built in all ways and asked everything.")
