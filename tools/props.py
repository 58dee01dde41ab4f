TODO = "check not built yet"
E = "ecore/"

# ------------------------------------------------------------------ concurrency
prop("C01", "Every lock is released on every way out",
 "Whenever a library operation acquires a lock (a mutex of its own, or the lock of an object or a store), it has released that lock by the time it returns, on success, on an early return and on failure alike, and it never releases a lock it does not hold. Operations whose purpose is to lock or unlock do the same thing on every path.",
 ["programs", "schedules", "fault_sequences"], "every function of the library, every control-flow path from a lock acquisition to a return",
 "A lock leaked on an early or failing return only shows up later, as a hang of another goroutine; tests exercise the success path single-threaded.",
 [E+"sqlstore.go", E+"sqlencoder.go", E+"sqlbase.go", E+"estorelist.go", E+"estoremap.go", E+"estoreeobject_impl.go", E+"eclass_ext.go", E+"epackage_ext.go", E+"eresource_impl.go"],
 [("sync.Mutex / sync.RWMutex fields and ELockProvider", "ecore/*.go")], technique="path-sensitive dataflow (typestate of lock balance) on SSA with interprocedural lock-effect summaries",
 note="every function that touches a lock; net lock effect equal on all exits; defers and callee effects included; locks reached through interfaces are symbolic paths")

prop("C02", "State protected by a lock is only accessed under that lock",
 "Mutable state that the library protects with a mutex is read and written, outside construction, only while that same mutex is held; writes hold it exclusively. This includes the contents of the maps and slices so protected.",
 ["schedules", "histories"], "every access, in every function, to every field that belongs to a mutex",
 "A missing lock manifests only under particular interleavings; the suite has almost no concurrent tests and cannot enumerate schedules.",
 [E+"sqlstore.go", E+"sqlencoder.go", E+"sqlbase.go", E+"estorelist.go", E+"estoremap.go", E+"estoreeobject_impl.go", E+"eclass_ext.go", E+"epackage_ext.go", E+"sqldecoder.go"],
 [("mutex fields next to the fields they guard", "ecore/*.go")], technique='guarded-by inference with lock-set dataflow (must-held locks, interprocedural entry sets)',
 note='every access to every field declared next to a mutex and to the contents it points to; accesses on freshly constructed objects exempt; promoted methods of embedded bases checked')

prop("C03", "Locks are acquired in a consistent order",
 "No two operations of the library acquire two locks in opposite orders, and no operation waits for a non-reentrant lock that it already holds; hence no schedule deadlocks the library on its own locks.",
 ["schedules", "programs"], "every pair of lock acquisitions nested along some call path",
 "A lock-order inversion needs two goroutines at two particular points; no test schedules that.",
 [E+"eclass_ext.go", E+"sqlstore.go", E+"sqlencoder.go", E+"estorelist.go", E+"estoreeobject_impl.go"],
 [("nesting of Lock calls", "ecore/*.go")], technique='lock-order graph over the call graph (may-held sets, acquisition summaries), cycle detection',
 note='edges follow static calls, own-identity dispatch and the fixed links between lock-owning components (class hierarchy, map and entry list, store and managers); per-object locks nested along the containment tree are not ordered by class')

prop("C04", "Process-wide state is initialised without races",
 "State shared by the whole process (registries, the metamodel's package and factory singletons, caches, codec tables) is initialised either before the program starts or under one-time or mutual-exclusion synchronisation, so that first uses by several goroutines at once are safe.",
 ["schedules"], "every assignment to, or mutation through, a package-level variable",
 "Tests initialise global state once, from one goroutine.",
 [E+"uri.go", E+"ecorepackage_impl.go", E+"ecorefactory_impl.go", E+"epackageregistry_impl.go", E+"ecodecregistry_impl.go"],
 [("package-level variables", "ecore/*.go")], technique='effect analysis of package-level variables with Once/mutex domination',
 note='every package-level variable of the package, every assignment, content mutation and read outside package initialisation')

prop("C05", "A scheduled store operation is always completed and deregistered",
 "Every read or write operation that the database-backed store registers for an object is finished and removed from the pending operations on every outcome, including when it fails, when an earlier operation failed, or when it is rejected. Nobody waits forever for an operation that already ended, and pending-operation tables do not grow with finished operations.",
 ["fault_sequences", "schedules", "histories"], "every path through operation registration, execution and completion",
 "Tests run the success path with a healthy database.",
 [E+"sqlstore.go", E+"sqlbase.go"], [("operation registration / completion", "ecore/sqlstore.go"), ("query registration", "ecore/sqlbase.go")], technique='must-event dataflow on every exit path, panics included, of promise bodies and removal functions',
 note='every promise body; every pending table (map of promise holders, found by type); lookups that found nothing waive the removal; loops count as all their iterations')

prop("C06", "Closing the store, or failing to open it, releases what it acquired",
 "Everything the database-backed store and codecs acquire when they are created (connection pool, worker pool, background goroutines, channels, temporary database) is released when they are closed, even if part of the closing fails, and is released immediately when the creation itself fails.",
 ["fault_sequences", "histories"], "every return path of every constructor and close operation",
 "Leaks need a failing database and are invisible to assertions.",
 [E+"sqlstore.go", E+"sqldecoder.go", E+"sqlencoder.go", E+"sqlbase.go"], [("constructors and Close", "ecore/sqlstore.go")], technique='typestate of owned resources: constructor and closer exit paths, must-release with defers, drain order',
 note='every resource-typed field a constructor fills; every return of constructors and closers; goroutine receive loops')

prop("C07", "Files, connections and temporary files are closed on every path",
 "Every file, reader, writer, database connection, backup or cursor that an operation opens for itself is closed when the operation returns, whether it succeeds or fails. A temporary file the library creates is removed when it is no longer needed, on failure as well.",
 ["fault_sequences", "programs"], "every acquisition site and every path from it to a return",
 "Failure paths between acquisition and release are hardly exercised and leaks are not asserted.",
 [E+"sqldecoder.go", E+"sqlencoder.go", E+"sqlstore.go", E+"sqlbase.go", E+"eresource_impl.go", E+"fileurihandler.go", E+"memoryurihandler.go"], [("defer Close / Put / Remove", "ecore/*.go")], technique='path-sensitive typestate of acquired resources with deferred releases evaluated under known error nil-ness',
 note='every call returning a file, stream, connection, pool, backup, worker pool, channel owner or temporary path; panics are not followed')

# ------------------------------------------------------------------ errors
prop("C08", "Persistence errors are never silently discarded",
 "While a model is saved, loaded or stored, an error reported by the database, the file system, a stream, a parser or another step is never dropped: it is returned to the caller, recorded in the resource's diagnostics, handed to the error handler or logged. In particular it is not overwritten before somebody has looked at it.",
 ["fault_sequences", "programs"], "every call that returns an error in the persistence layers, every path from it",
 "Almost no test injects a failing database, stream or parser.",
 [E+"sqlstore.go", E+"sqldecoder.go", E+"sqlencoder.go", E+"sqlbase.go", E+"binarydecoder.go", E+"binaryencoder.go", E+"eresource_impl.go", E+"xmlencoder.go", E+"jsonencoder.go"], [("error returns", "ecore/*.go")], technique='error-flow path analysis over SSA',
 note='each error result is looked at before being overwritten and, once known to have occurred, returned, recorded, handed on or logged; an expected condition it is compared with is handling')

prop("C09", "A failed step is reported as a failure",
 "When a step of an operation that can report an error fails, the operation reports a non-nil error: it neither claims success nor passes the error off as its ordinary result. A constructor that fails yields no usable-looking object.",
 ["fault_sequences", "programs"], "every branch taken because an error is non-nil, in every function returning an error",
 "Needs the failing branch to be executed and its result inspected.",
 [E+"sqlstore.go", E+"sqldecoder.go", E+"sqlencoder.go", E+"sqlcodec.go", E+"binarydecoder.go", E+"binaryencoder.go"], [("`if err != nil` branches", "ecore/*.go")], technique='error-flow path analysis over SSA',
 note='decides error results; a failure signalled by a boolean or a nil object is out of scope')

prop("C10", "Load and save failures end up in the resource's diagnostics",
 "Loading or saving a resource that fails for any reason (unknown codec, unreadable or unwritable location, decoder or encoder error) leaves at least one error diagnostic in the resource. A load clears the diagnostics of the previous one and always ends the loading state.",
 ["fault_sequences", "inputs"], "every failure branch between the resource's load/save entry points and the codecs",
 "Only a few failures are sampled.",
 [E+"eresource_impl.go", E+"eresourceset_impl.go", E+"xmldecoder.go", E+"xmlencoder.go", E+"jsonencoder.go", E+"sqldecoder.go", E+"sqlencoder.go", E+"binarydecoder.go", E+"binaryencoder.go"], [("resource errors list", "ecore/eresource_impl.go")], technique='path-sensitive must-event dataflow over the load/save operations and codec entry points (SSA)',
 note='Panics inside a codec are not followed; resources without a URI are outside the rule')

# ------------------------------------------------------------------ model
prop("C11", "List mutations keep inverses in step and notify",
 "Every operation that adds, inserts, replaces or removes elements of a notifying list changes the stored elements, tells every removed element that it lost, and every added element that it gained, its inverse (unless the caller handles the inverse, as in the variants that take a notification chain), and emits a notification of the matching kind. A move notifies without touching inverses.",
 ["programs", "histories", "inputs"], "every mutating operation of every notifying list implementation, every control-flow path",
 "Tests sample list types and sizes with mocks; the guarantee covers every list type, path and size.",
 [E+"basicenotifyinglist.go", E+"basiceobjectlist.go", E+"estorelist.go", E+"abstractelist.go", E+"basicelist.go"], [("inverseAdd/inverseRemove and notification dispatch", "ecore/basicenotifyinglist.go")], technique='must-event dataflow with emptiness/identity waivers and value-origin analysis on every mutating operation of the notifying lists',
 note="Which inverse feature the handler addresses is C19's; the element positions in notifications are C14's")

prop("C12", "Setting a single-valued feature maintains its inverse and notifies",
 "Setting or unsetting a single-valued feature of an object (generated, reflective or dynamic) changes the stored value, detaches the previous value and attaches the new one when the feature has an inverse or is a containment, and delivers a notification carrying that feature, the previous value and the new value in that order.",
 ["programs", "histories"], "every setter and basic setter of every metamodel class and every reflective setter path",
 "Tests sample features with mock adapters.",
 [E+"*_impl.go", E+"abstracteobject.go", E+"basiceobject_impl.go"], [("setters, basicSet…, eBasicInverse…", "ecore/*_impl.go")], technique='source-level specialisation of every setter (generated, extension, dynamic, container, resource) under each relation of old and new value; must-pass path analysis for store, inverse calls and notification content',
 note="every Set/Unset/basicSet of every metamodel class and extension type, the dynamic reflective operations per feature kind, EBasicSetContainer per identifier case, resource setters; inverse identifiers are C19's, chain conservation C13's")

prop("C13", "Pending notifications are never lost",
 "When an operation receives or builds a chain of pending notifications, the chain it returns or dispatches contains everything it was given or obtained from the operations it called. No call result carrying pending notifications is thrown away, and a chain an operation builds for itself is dispatched before it returns.",
 ["programs", "histories"], "every value of the notification-chain type in every function",
 "A dropped chain only matters for particular bidirectional/containment combinations with adapters attached.",
 [E+"abstracteobject.go", E+"basiceobject_impl.go", E+"basicenotifyinglist.go", E+"basiceobjectlist.go", E+"estorelist.go", E+"eresource_impl.go", E+"*_impl.go"], [("ENotificationChain threading", "ecore/*.go")], technique='path-sensitive obligation (must-consume) dataflow over SSA for notification chains; specialisation of Dispatch and Merge',
 note='Every function that receives or obtains an ENotificationChain or a freshly built ENotification: on every path to a return each pending chain is returned, added, dispatched, stored or handed on (nil chains and merged notifications excepted). Dispatch implementations deliver everything; Merge refuses different notifiers or features and takes the value over.')

prop("C14", "Adapters observe list changes at the right position",
 "Observers of a list see each element that was added, removed, replaced or moved exactly where it is or was in the list, and the internal change callbacks that derived structures rely on (maps, adapters, identifier tables) receive the same element and position for every kind of mutation, bulk operations included.",
 ["inputs", "histories"], "every mutating operation of the base list, every call of a change callback",
 "Tests check callbacks for a few operations on lists starting at index zero.",
 [E+"basicelist.go", E+"basicenotifyinglist.go", E+"basicemap.go", E+"basiceobjectmap.go", E+"abstractenotifier.go"], [("DidAdd/DidSet/DidRemove/DidClear/DidMove/DidChange", "ecore/basicelist.go")], technique='symbolic linear evaluation of positions and element provenance over SSA, per store configuration; path analysis for callbacks',
 note='Every DidAdd/DidSet/DidRemove/DidMove/DidClear call and every list notification: the position expression is evaluated as a linear sum over parameters, size and loop counters and must equal the position of the very element named; each mutation reaches its callback exactly once in each data/store configuration. Positions the evaluation cannot take apart are listed in the evidence as undecided.')

prop("C15", "Objects always present themselves by their public identity",
 "An object that extends a library class is always represented by its own most-derived identity: whenever library code stores the object, hands it to others as owner, container or notifier, or compares it with another object, it uses that identity and never the embedded base part.",
 ["programs"], "every place where a receiver of an extensible class escapes as an object",
 "Only manifests for types that embed library classes; tests mostly use the library's own concrete types.",
 [E+"abstracteobject.go", E+"*_impl.go", E+"abstractelist.go"], [("AsEObject / interfaces indirection", "ecore/abstracteobject.go")], technique='who-am-I escape analysis: every use of a receiver (or embedded part) of an extensible class as an interface value, and typestate of every allocation',
 note='Structural: follows the receiver through local variables, conversions and type assertions inside each function; all constructors are followed into their helpers to show the face is set and the object initialised on every path.')

prop("C16", "Derived metamodel information is recomputed after every change",
 "Information a class or package derives from its own features and super types (all attributes, references, containments, operations, super types, identifiers, name tables) is dropped whenever any feature it was computed from changes, in the class itself or in a super type, so that it never describes an earlier state.",
 ["histories"], "every cached derived value and every feature it is computed from",
 "Needs query-change-query histories for each (cache, source feature) pair; tests sample a few.",
 [E+"eclass_ext.go", E+"epackage_ext.go", E+"ereference_ext.go", E+"eenum_ext.go", E+"extendedmetadata.go"], [("setModified and cache fields", "ecore/eclass_ext.go")], na=TODO)

prop("C17", "Whole-object operations cover inherited features",
 "Operations that process an object as a whole (deep copy, structural equality, saving, contents and cross-reference traversal, identifier lookup) take into account every feature of the object's class, inherited ones included.",
 ["inputs", "programs"], "every enumeration of a class's features by a whole-object operation",
 "Test models mostly have flat classes.",
 [E+"deepcopy.go", E+"deepequal.go", E+"econtentslist.go", E+"binarycodec.go", E+"sqlschema.go", E+"xmlencoder.go", E+"jsonencoder.go", E+"eclass_ext.go", E+"ecoreutils.go"], [("GetEAll… accessors", "ecore/eclass_ext.go")], technique='contributions analysis of the class lists (each inherited list is shown to be built from the list of every super type) and dataflow from every enumeration of features to the class lists: own-only accessors, partial loops and declaring-class filters are reported',
 note='Every call site that enumerates features (lists, iterators, names, identifiers) in the whole-object operations, and the construction of each inherited list in EClassExt. Elements may be left out only under questions about the feature itself that a fixed table permits. Cyclic super types and user-defined EClass implementations are not covered.')

prop("C18", "Reflective access agrees with the typed accessors",
 "For every feature of every metamodel class, reflective get, set, unset and is-set act on the same stored state as the feature's typed accessors and on no other feature, and change notifications for it carry that feature's identifier.",
 ["programs", "inputs"], "every (class, feature) pair times the four reflective operations",
 "Generated tests cover the pairs with mocks for delegation; agreement of the stored state across the four operations is not asserted pairwise.",
 [E+"eclass_impl.go", E+"estructuralfeature_impl.go", E+"*_impl.go", E+"ecorepackage.go"], [("EGetFromID/ESetFromID/EUnsetFromID/EIsSetFromID", "ecore/*_impl.go")], technique='static switch specialisation: each reflective method is analysed once per feature identifier and compared with the metamodel and the typed accessors',
 note="For every implementation class and every own and inherited feature, the four reflective methods are specialised to that feature's identifier (helpers included) and must reach exactly that feature's accessor, field and default. Dynamic features (no generated class) are covered by C12; the values a volatile accessor computes are not compared.")

prop("C19", "Inverse handlers agree with the declared opposites",
 "For every metamodel reference that has an opposite or is a containment, adding or removing the inverse through the reflective handlers updates exactly that reference, the handler for the other end exists, and the collections behind many-valued references are configured with the containment, opposite and proxy-resolution settings that the metamodel declares.",
 ["programs"], "every reference of every metamodel class",
 "Tests exercise a sample of references with mocks.",
 [E+"*_impl.go", E+"ecorepackage_impl.go"], [("EBasicInverseAdd/Remove and list initialisers", "ecore/*_impl.go")], technique='static analysis: inverse handlers, list constructors and inverse announcements specialised per feature and per feature kind, compared with the metamodel and with each other',
 note='The whole metamodel plus the code that handles features known only at run time; list flags are decided for every combination of containment, opposite, proxy resolution and unset.')

prop("C20", "The metamodel describes itself consistently",
 "Every metamodel class, feature and operation identifier, its accessor, the element created for it and the element initialised for it all denote the same element; each element is created once, at the position its identifier says, and initialised exactly once with the name, type and multiplicity of the accessor it backs.",
 ["programs"], "every element of the metamodel package",
 "Tests compare a few accessors; there are about 300 elements.",
 [E+"ecorepackage.go", E+"ecorepackage_impl.go"], [("createPackageContents / initializePackageContents", "ecore/ecorepackage_impl.go")], technique='static extraction of the metamodel from the package source and cross-checking of identifiers, accessors, initialisers and Go interfaces',
 note='Creation order, identifiers, constants, counts, package accessors, initialisers, opposites and the Go interfaces are extracted from the type-checked program and compared pairwise for every classifier, feature and operation of the Ecore package (about 1100 obligations). Data-type defaults and documentation text are not compared.')

prop("C21", "Reflective operation calls reach the operation they name",
 "For every operation of every metamodel class, invoking it reflectively by its identifier calls the typed operation it denotes, with each argument passed in its declared position, and operation identifiers resolve consistently across inheritance.",
 ["programs"], "every (class, operation) pair",
 "Generated tests sample operations.",
 [E+"*_impl.go", E+"ecorepackage_impl.go"], [("EInvokeFromID", "ecore/*_impl.go")], technique='static analysis: every operation case of every EInvokeFromID, specialised by identifier, compared with the metamodel read from the package initialiser',
 note='The whole metamodel of the repository; values passed through helpers are followed.')

prop("C22", "The factory creates and converts every type the metamodel declares",
 "For every concrete class the factory creates an instance of exactly that class, and for every serialisable data type there is both a conversion to and from string, each acting on that data type; every declared Go type has both directions.",
 ["programs", "inputs"], "every classifier identifier times create / convert / parse",
 "Tests sample classifiers.",
 [E+"ecorefactory_impl.go", E+"efactory_ext.go", E+"ecorefactory.go"], [("Create / ConvertToString / CreateFromString switches", "ecore/ecorefactory_impl.go")], technique='static analysis: factory switches specialised per classifier identifier and per Go type name; constructed types, asserted types and notations compared in both directions',
 note='Notations are compared by the standard functions and constants they use; conversions written without them are compared by Go type only.')

# ------------------------------------------------------------------ collections
prop("C24", "List indexes are validated before the list is touched",
 "Every list operation that takes a position rejects an out-of-range position before reading or changing anything: no stored element is accessed with a position that has not been checked against the current size, and the accepted range matches the operation (existing positions for get, set, remove and move; also the end for insert).",
 ["inputs", "histories"], "every public list operation with an index parameter, every list implementation",
 "Tests check a few out-of-range values per operation.",
 [E+"abstractelist.go", E+"immutableEList.go", E+"estorelist.go", E+"delegatingelist.go"], [("size checks", "ecore/abstractelist.go")], technique='zone (difference-bound) abstract interpretation of every list operation, helpers and closures analysed in place',
 note="Sizes are symbolic; a list's size is what its Size() reads. Inside do…/perform… operations positions are assumed checked and every place that calls them has to prove it. Positions stored by SQLStore are outside.")

prop("C25", "Unique lists never admit a duplicate",
 "A list declared unique checks membership on every list operation that brings in an element (add, insert, replace, and their bulk forms, duplicates inside the added collection included) before storing it. (The …WithNotification operations, with which the two ends of a relation are kept in step, leave that to their caller.)",
 ["inputs", "histories"], "every public inserting operation of every list implementation",
 "Tests sample operations.",
 [E+"abstractelist.go", E+"estorelist.go", E+"basicelist.go"], [("isUnique / Contains checks", "ecore/abstractelist.go")], technique='assume-duplicate reachability (zone abstract interpretation with uniqueness and membership assumed) and set-provenance analysis of the bulk filter',
 note="Membership is what the list's own Contains/IndexOf answer. Elements compared with ==.")

prop("C26", "Read-only collections cannot be modified through their interface",
 "Every mutating operation of a read-only list or map fails without changing anything, for every argument. The lists a class derives from its features and super types, and the views a read-only list hands out as lists, are themselves read-only.",
 ["inputs", "programs"], "every mutating method of every read-only collection type",
 "Needs one case per mutator and type.",
 [E+"immutableEList.go", E+"immutableemap.go", E+"econtentslist.go"], [("panicking mutators", "ecore/immutableEList.go")], technique='never-returns analysis (CFG, interprocedural) of every mutator in the method set of every read-only type; dynamic-type dataflow of the lists handed out',
 note='every mutator of 4 read-only types incl. promoted ones, every store of a derived list of EClassExt; aliasing through ToArray/ToMap out of scope (documented)')

prop("C27", "Iterators are only advanced after asking for a next element",
 "Library code advances an iterator only after that iterator has just reported that it has a next element, so that iterating collections of any length neither panics nor skips.",
 ["inputs", "programs"], "every call that advances an iterator",
 "Depends on collection contents not sampled.",
 [E+"xmlencoder.go", E+"econtentslist.go", E+"etreeiterator.go", E+"*"], [("HasNext/Next", "ecore/*.go")], technique='path-sensitive typestate of iterators (asked / advanced), interprocedural through helpers and closures',
 note='every call of Next on a type with HasNext and Next in the library; Next of an iterator that stands for another one is covered by its own HasNext')

prop("C28", "Keyed collections keep index and entries in step",
 "In keyed collections the index and the entry list describe the same entries after every operation: adding, removing, replacing, moving and clearing entries, individually or in bulk, through the map or through its list view, updates both.",
 ["histories", "inputs"], "every mutating operation of every keyed collection",
 "Tests sample operation sequences.",
 [E+"basicemap.go", E+"basiceobjectmap.go", E+"estoremap.go"], [("DidAdd/DidRemove/DidSet/DidClear overrides", "ecore/basicemap.go")], technique="symbolic path interpretation of the list callbacks and of the keyed collection's own operations (helpers inlined, index built and not built), each path's effects on the index compared with what happened to the entries",
 note='All callbacks of the three lists behind keyed collections, Put, RemoveKey, the questions answered from the index, building the index, constructors, and the operations that switch store or cache; list operations reach the callbacks by the rule of C14. Changing a key or value through the entry itself, two entries with one key, and the aliasing of ToMap are not covered.')

prop("C29", "Store-backed features forward every change to the store",
 "Every mutation of a store-backed list, map or object feature is applied to the store when one is attached and to the in-memory copy when caching is on; with neither skipped on any path. Attaching, detaching, or changing cache mode applies to every kind of feature value alike.",
 ["histories", "configurations"], "every mutating operation of store-backed features times store/cache configurations",
 "Tests check each operation in one or two configurations with mocks.",
 [E+"estorelist.go", E+"estoremap.go", E+"estoreeobject_impl.go"], [("perform… operations", "ecore/estorelist.go")], na=TODO)

# ------------------------------------------------------------------ codecs
prop("C30", "Binary reader and writer agree on the format",
 "For every kind of feature and every structural element of the binary format, the reader consumes exactly the sequence of primitive values that the writer produces, and both give identifiers (objects, packages, classes, features, URIs, enumeration literals) in the same order: what is written or read for the first time is registered exactly once, before anything nested.",
 ["programs", "inputs"], "every feature kind and every encoding routine, all control-flow paths",
 "Round-trip tests use models with a few feature kinds.",
 [E+"binaryencoder.go", E+"binarydecoder.go", E+"binarycodec.go"], [("encode…/decode… pairs", "ecore/binaryencoder.go")], technique='symbolic enumeration of the SSA paths of every encoding routine into sequences of message pack primitives with the meaning of each number (fixed, size, known or new identifier, feature position), and inclusion check against the sequences accepted by the decoding counterpart; registration order of the identifier tables on every path',
 note='one round of each loop is followed; primitives are compared by the exact message pack routine; the decoder may accept more than the encoder writes; enumeration branches are told apart by the feature kind constants; whether the value read is stored in the right feature is C31/C42')

prop("C31", "The binary reader validates what it reads before relying on it",
 "Numbers read from a binary resource are checked before they are used as positions in tables or as sizes of allocations, and what a failed read answers is never used, so that a corrupt or truncated resource yields an error instead of an out-of-range access, a failed assertion in the reader, a call on something that was looked up and not found, or an unbounded allocation.",
 ["inputs"], "every data flow from a decoded number to an index or allocation",
 "Tests read well-formed files.",
 [E+"binarydecoder.go"], [("decodeInt results", "ecore/binarydecoder.go")], technique="taint from the stream's numbers to positions and allocations, decided by a difference-bound abstract interpretation over the reader's functions (helpers in place); dominance for failed and absent results",
 note='Numbers answered by the msgpack decoder are followed (through arithmetic, helpers, results) to every index, slice bound, list position and allocation in the reader, where bounds must be provable; single-result assertions, results used without their error being nil and absent URIs followed are reported. Not decided: panics of user factories and setters on values of the wrong kind, recursion depth, and what msgpack itself allocates.')

prop("C32", "Database reader and writer agree on value representation",
 "For every kind of feature the value written to the database is the one the reader reconstructs: both sides classify features with the same function and handle the same kinds, null values included, and each kind the classification can produce is handled explicitly on both sides.",
 ["programs", "inputs"], "every feature kind times encode and decode",
 "Round-trip tests use models with a few feature kinds.",
 [E+"sqlencoder.go", E+"sqldecoder.go", E+"sqlschema.go", E+"sqlstore.go"], [("kind switches", "ecore/sqlschema.go")], technique='path enumeration of the value codec of the SQL layer per feature kind and value type (type-state of the dynamic type), kinds tied to Go types through the classification function; schema column types compared by SQLite affinity',
 note="Decided per kind: the classification stands for one Go type, the encoder answers something SQLite stores and takes the value for its own type only, the declared column type has the affinity of that storage class, the decoder accepts that storage class and answers the kind's type, numbers are not narrowed, date layouts carry the instant, null decodes to nothing or the default and null columns leave the feature unset. Not decided: what factories of user packages make of literals; NaN (SQLite stores it as NULL).")

prop("C33", "Every SQL statement uses the schema's columns consistently",
 "Every statement the library prepares binds exactly as many values as it has placeholders, and every column position read from a result lies within the columns the statement selects.",
 ["programs", "configurations"], "every query construction and execution site",
 "Optional columns (container, key, object identifier) appear only in some configurations.",
 [E+"sqlschema.go", E+"sqlstore.go", E+"sqldecoder.go", E+"sqlencoder.go"], [("query builders", "ecore/sqlschema.go")], na=TODO)

prop("C34", "Model content never becomes SQL text",
 "Values coming from a model (names, identifiers, strings) reach the database only as bound parameters or as identifiers quoted by the identifier-escaping function; they are never concatenated raw into a statement.",
 ["inputs"], "every string that flows into a prepared or executed statement",
 "Tests use alphanumeric names.",
 [E+"sqlschema.go", E+"sqlstore.go", E+"sqldecoder.go", E+"sqlencoder.go", E+"sqlbase.go"], [("sqlEscapeIdentifier and Args", "ecore/sqlschema.go")], technique='interprocedural escape-level dataflow (raw / once / twice) to every SQL execution site, with a fact-based verification of the identifier-quoting function (regular-expression syntax check, keyword test, quote doubling)',
 note="every statement text executed through sqlite/sqlitex in the package; statements given by the caller of the public SQLStore.ExecuteQuery are the caller's")

prop("C35", "Model content never becomes markup",
 "Every string taken from the model or from identifiers and locations derived from it is escaped exactly once before it is written as the value of an XML attribute, the content of an XML element or a JSON string, in the single-valued and the many-valued form alike. (Names in name position - element, attribute and prefix names - come from the metamodel and are written as they are.)",
 ["inputs"], "every data flow from model content to the text output buffers",
 "Tests write alphanumeric content.",
 [E+"xmlencoder.go", E+"xmiencoder.go", E+"xmlstring.go", E+"jsonencoder.go"], [("addAttributeContent / addContent", "ecore/xmlstring.go"), ("jsonEscape", "ecore/jsonencoder.go")], technique='interprocedural escape-level dataflow (raw / once / twice) to the XML buffer and the JSON writer, with name/value position tracking',
 note='every write to the XML buffer and every string handed to the JSON writer; names in name position are taken from the metamodel and excluded')

prop("C36", "XML output declares every namespace prefix it uses",
 "Whenever the XML writer emits a name with a reserved prefix (type or nil markers of the schema-instance namespace, or a package prefix), it has also registered that prefix for declaration in the same document.",
 ["inputs", "configurations"], "every emission of a prefixed name",
 "Tests parse output leniently; rare combinations are not sampled.",
 [E+"xmlencoder.go", E+"xmiencoder.go"], [("prefix registration", "ecore/xmlencoder.go")], technique='path-sensitive must-event analysis: every write of a prefixed name is surrounded by the registration of its prefix, value origin tracking for package prefixes',
 note='every constant prefixed name and every prefix put before a name in the XML and XMI writers; declaration loop, output order and table lifetime included')

prop("C37", "Every feature kind is handled by every text encoder and decoder",
 "For each kind that an encoder's or decoder's classification of features can produce there is explicit handling in every place that dispatches on the kind; no kind falls through silently.",
 ["programs"], "every switch over feature kinds",
 "Tests cover a few kinds.",
 [E+"xmlencoder.go", E+"xmldecoder.go", E+"jsonencoder.go", E+"binaryencoder.go", E+"binarydecoder.go", E+"sqlschema.go"], [("kind switches", "ecore/xmlencoder.go")], technique='path enumeration of the classification functions and switch specialisation per kind (SSA)',
 note='Every kind a classification can answer x every place comparing kinds: explicit case that acts, a default that does the work, or dealt with by an earlier place. Whether the work is the right one is C30/C32 (binary, SQL).')

prop("C38", "XML element nesting is tracked in balance",
 "Whatever the input document, the XML reader pushes exactly as many entries on its nesting stacks when an element starts as it pops when that element ends, so an unknown or malformed element never misattributes later content and never crashes the reader.",
 ["inputs"], "every path through the start-element and end-element handlers",
 "Tests read valid documents.",
 [E+"xmldecoder.go"], [("element, object and type stacks", "ecore/xmldecoder.go")], technique='interprocedural stack-effect analysis over all paths of the element handlers (SSA, summaries to a fixpoint)',
 note='Net effect of start and end handlers on every nesting stack (inferred: slices pushed and cut, push/pop method pairs) and a lower bound of the depth at each read and pop.')

prop("C39", "All root objects of a resource are saved",
 "Every format saves all the root objects of a resource, not only the first one.",
 ["inputs"], "every encoder of a resource",
 "Tests save resources with one root.",
 [E+"xmlencoder.go", E+"jsonencoder.go", E+"binaryencoder.go", E+"sqlencoder.go"], [("EncodeResource", "ecore/*encoder.go")], technique='use-tracking of the root list through every resource encoder with loop coverage analysis (SSA)',
 note='Decides that every EncodeResource hands each element of GetContents() to its saving routine (no round without saving, no early exit except on an error). What the saving routine then writes is C17/C30/C32/C37. XML and JSON keep one document element: two known findings.')

prop("C40", "Library loops make progress",
 "Every loop in the library whose condition can hold on entry changes, in each iteration, something its condition or an exit inside it depends on, so no input makes the library spin.",
 ["inputs", "programs"], "every loop",
 "Needs the triggering input (for example a name collision).",
 [E+"*"], [("loops", "ecore/*.go")], technique='per-round path search over every natural loop: loop-variable movement, iterator advance, memory and table updates that its exits depend on',
 note='every loop of the library; termination arguments beyond one step of progress (e.g. cyclic structures) are out of reach')

prop("C41", "Identifier tables stay bijective",
 "The tables mapping identifiers to objects and objects to identifiers are updated together on every path, including re-registration, identifier reuse, unregistration and clearing; looking up either direction never yields a stale partner.",
 ["histories"], "every mutation of either table in every identifier manager",
 "Needs register-reregister-unregister histories; tests sample a few.",
 [E+"eobjectidmanager_impl.go", E+"uniqueidmanager.go", E+"eresource_impl.go"], [("two-way maps", "ecore/uniqueidmanager.go")], technique='path-sensitive symbolic table-effect analysis of every identifier-manager operation (helpers and closures inlined), must-event analysis of resource registration, difference-bound analysis of the counter',
 note='every path of every operation that touches a pair of inverse maps, 2 managers; the tables are compared as bijections at every return')

prop("C42", "Fragment segments are decoded with the inverse of their encoding",
 "Every string that is escaped when an object's fragment path is built is unescaped when the path is resolved, positions inside segments are checked before use, and a path that names nothing resolves to no object rather than crashing.",
 ["inputs"], "every escape call on the building side and its counterpart on the resolving side",
 "Tests use names without reserved characters.",
 [E+"emodelelement_ext.go", E+"ecoreutils.go", E+"eresource_impl.go", E+"abstracteobject.go"], [("EURIFragmentSegment / EObjectForFragmentSegment", "ecore/emodelelement_ext.go")], technique='dataflow of segment strings (codings applied), interval analysis of positions, and symbolic path enumeration of the numbering in SSA',
 note="Codings are compared per property (name, source); numbers path by path up to three elements. Names that start with '@' or end in '.<number>' stay ambiguous by design of the format and are not decided.")

prop("C43", "Adapters learn about being attached and detached",
 "Whenever an adapter is added to, removed from, replaced in or cleared from the adapters of an object, its target is set or unset accordingly and it receives the removal notification; content adapters attach to and detach from every element that enters or leaves the observed tree, for every kind of notification.",
 ["histories", "programs"], "every mutation of an adapter list and every notification kind",
 "Tests sample operations with mocks.",
 [E+"abstractenotifier.go", E+"econtentadapter.go", E+"abstractadapter.go", E+"abstracteobject.go"], [("adapter list callbacks", "ecore/abstractenotifier.go")], technique="symbolic path interpretation of the adapter list callbacks and of the content adapter, once per notifier kind, notification kind and proxy mode: each path's attach, detach and notification calls compared with what the notification says entered or left",
 note='All callbacks of adapter lists, every EAdapters implementation, target bookkeeping, ENotify, and the content adapter for EObject, EResource and EResourceSet times every event type. Adapters that change the list while being notified, and the internal adapters of metamodel classes (C16), are not covered.')

prop("C44", "Wrapping collections delegate faithfully",
 "A collection or iterator view that wraps another one forwards each operation to the same operation of the wrapped collection, with the same arguments in the same order, and returns its result.",
 ["programs"], "every method of every delegating collection type",
 "Tests cover a few delegated methods.",
 [E+"delegatingelist.go", E+"immutableemap.go", E+"basiceobjectlist.go", E+"estorelist.go", E+"basicemap.go"], [("delegating methods", "ecore/delegatingelist.go")], technique="symbolic path interpretation of every method of every wrapping type: the one call on the wrapped collection, its arguments and the result are compared with the method's own; unresolved views are checked against a table of what they do themselves",
 note='The delegating list bases, the two unresolved views, the list iterator, the registries with a fallback, and where views and iterators are made. What the wrapped collections do is the matter of the other list properties.')

# ------------------------------------------------------------------ out of reach
prop("N01", "Saving and reloading a model yields an equal model",
 "For every model and every codec, loading what was saved yields a structurally equal model.",
 ["inputs"], "every model", "Round-trip tests sample models.",
 [E+"binaryencoder.go", E+"binarydecoder.go", E+"sqlencoder.go", E+"sqldecoder.go", E+"xmlencoder.go", E+"xmldecoder.go"], [("codecs", "ecore/")],
 na="Equality of run-time values for unbounded models is not decidable by a sound static argument in reach; the structural necessary conditions (format agreement, kind completeness, all features, all roots) are claimed as C17, C30, C32, C37, C39.")
prop("N02", "URI parsing, resolution and relativisation follow the standard",
 "Parsing, printing, resolving and relativising any URI obey RFC 3986 and are mutually inverse where defined.",
 ["inputs"], "every URI string", "Table-driven tests sample strings.",
 [E+"uri.go"], [("URI type", "ecore/uri.go")],
 na="A property of string values computed by arithmetic and table-driven parsing code; needs execution or symbolic string reasoning, which is a different family.")
prop("N03", "List order is preserved by the database store",
 "Inserting, moving and removing elements of a store-backed list in any sequence yields the same order as the in-memory list.",
 ["histories"], "every operation sequence", "Tests sample sequences.",
 [E+"sqlstore.go"], [("fractional index computation", "ecore/sqlstore.go")],
 na="Depends on floating-point index arithmetic over database contents; no static bound on those run-time values is in reach.")
prop("N04", "Tree iteration visits every contained object exactly once",
 "Iterating all contents of any object visits each directly or indirectly contained object exactly once, in containment order.",
 ["inputs"], "every containment tree", "Tests sample trees.",
 [E+"etreeiterator.go", E+"eallcontents.go"], [("tree iterator", "ecore/etreeiterator.go")],
 na="Quantifies over run-time tree shapes; the static part (iterator protocol, all containment features) is claimed as C17 and C27.")
prop("N05", "A crash during save leaves a loadable database",
 "After a crash at any point of a save or a store operation the database file is loadable and reflects a prefix of the operations.",
 ["crash_points"], "every crash point", "No test crashes.",
 [E+"sqlencoder.go", E+"sqlstore.go", E+"sqlbase.go"], [("transactions", "ecore/sqlbase.go")],
 na="Atomicity is provided by SQLite's journal at run time; whether each operation is one transaction is a matter of crash points, which a static analysis of this code cannot enumerate faithfully.")
prop("N06", "Concurrent store operations are linearizable",
 "Concurrent reads and writes of store-backed features through the database store return results consistent with some sequential order.",
 ["schedules"], "every interleaving", "No concurrent tests.",
 [E+"sqlstore.go"], [("operation queues", "ecore/sqlstore.go")],
 na="Linearizability of results needs histories of run-time values; the static necessary conditions (locks, completion, guarded state) are claimed as C01-C05.")
