import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","A Frame is a faithful container of named collections",
"After any sequence of adding, looking up and listing collections, a lookup by name returns exactly the collection that was added (or read) under that name, at a stable address and with unchanged contents for as long as the Frame lives, also after the Frame is moved, the reported list of available collections holds every such name exactly once, and the name reported for a collection or its ID is that name. Looking up a name that is not available yields nothing (untyped) or an error (typed, also for a wrong type), and never makes that name available. Adding a second collection under a name that is already available, whether it was added before or comes from the data the Frame was read from, is refused with an error and changes nothing, and a Frame cannot be made from missing data.",
["histories"],"all operation sequences over put/get by name/typed get/list/name lookup/move on a small set of names and collection types, for in-memory Frames and for Frames backed by raw data, up to a depth bound",
"The Frame unit tests walk a handful of fixed sequences and are not run in this build; an order-dependent mistake (list after lazy read, put over an unread name, lookup after a failed lookup) needs every short sequence.",
["include/podio/Frame.h","include/podio/CollectionIDTable.h","src/CollectionIDTable.cc"],
[("FrameModel::put / get / doGet / availableCollections","include/podio/Frame.h")],
[("m_collections","name to materialised collection","include/podio/Frame.h"),("m_retrievedIDs","IDs already unpacked","include/podio/Frame.h")],
["Frame::get","Frame::put","Frame::getAvailableCollections","Frame::getName"])

p("C02","Concurrent use of one Frame behaves like some sequential order",
"When several threads look up, add and list collections of the same Frame at the same time, every call returns what it would return in some sequential execution of the calls, and a collection that is handed out is complete, with all relations to other available collections of the Frame resolved. A name that is available is never reported as missing because another thread is reading it, all threads that look up the same name get the same collection, and of several concurrent additions of one name exactly one succeeds. No interleaving has a data race, deadlock or crash.",
["schedules"],"all interleavings (up to a preemption bound) of 2-3 threads with 1-2 Frame operations each, on in-memory and lazily read Frames whose collections refer to each other",
"The multithreaded unit tests sample a few free-running schedules and are not run in this build; the race windows are between two critical sections and a few instructions wide.",
["include/podio/Frame.h","include/podio/CollectionIDTable.h","src/CollectionIDTable.cc","include/podio/GenericParameters.h"],
[("locking in FrameModel","include/podio/Frame.h"),("CollectionIDTable mutex","src/CollectionIDTable.cc")],
[("m_collections / m_retrievedIDs / m_data","shared Frame state","include/podio/Frame.h")],
["return values of Frame calls on each thread"])

p("C03","Concurrent writers of one Frame get identical, complete data",
"When several threads fetch collections (and the parameters and ID table) of the same Frame for writing at the same time, each of them receives, for each collection, complete buffers with the same contents a single writer would get, whatever the interleaving. Preparing a collection for writing any number of times gives the same buffers each time and does not change what a reader of the Frame sees. No interleaving has a data race, deadlock or crash.",
["schedules"],"all interleavings up to a preemption bound of 2-3 writer threads (optionally with a concurrent reader) over shared collections with relations, vector members, subsets, links and user data",
"Tests write from two threads on whatever schedule occurs; the first-writer race window is tiny.",
["include/podio/Frame.h","python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionImpl.h","include/podio/UserDataCollection.h"],
[("prepareForWrite with double-checked flag and storage mutex","python/templates/Collection.cc.jinja2"),("getCollectionForWrite","include/podio/Frame.h")],
[("m_isPrepared","whether buffers are filled","python/templates/Collection.h.jinja2")],
["contents of getBuffers() on every thread"])

p("C04","Parameters form one independent faithful map per value type",
"For each supported value type (int, float, double, string; scalars, vectors, initialiser lists and string literals), the parameters behave as a map: reading returns the value last set under that key and type, bit for bit and in order, and a key of one type never affects the same key of another type. Reading an absent key yields no value, key listing gives exactly the keys of that type with their number, size counts the elements of one key, and loading, copying, moving, clearing and extracting parameters transfer exactly those entries. Setting, listing and loading through a Frame is the same as on its parameters.",
["histories"],"all operation sequences over set/get/keys/size/empty/clear/loadFrom/extract/copy/move on a small key set, value types and value shapes (empty, one, many elements, empty strings) up to a depth bound",
"Tests check a few keys in one order and are not run in this build; overwrites with a different shape, same key with different types and copies/moves between non-empty objects are order dependent.",
["include/podio/GenericParameters.h","src/GenericParameters.cc","include/podio/Frame.h"],
[("GenericParameters::set/get/getKeys/loadFrom","include/podio/GenericParameters.h"),("copy constructor and print","src/GenericParameters.cc")],
[("m_intMap, m_floatMap, m_stringMap, m_doubleMap","one map per type","include/podio/GenericParameters.h")],
["GenericParameters and Frame parameter calls"])

p("C05","Concurrent parameter access is atomic",
"When several threads set, read, list, count, copy, load, clear and print parameters of the same object or Frame at the same time, each operation takes effect as a whole: a read returns no value or one complete value that was set, and the results and the final contents are those of some sequential order of the operations (for printing: per value type). A copy shows the values of all types as they were at one moment. No interleaving has a data race, a deadlock or a crash.",
["schedules"],"all interleavings (up to a preemption bound) of 2-3 threads with 1-2 parameter operations each over shared keys",
"One unit test inserts from several threads on whichever schedule occurs; listing or copying during a write is not tried.",
["include/podio/GenericParameters.h","src/GenericParameters.cc"],
[("per-type mutexes","include/podio/GenericParameters.h")],
[("m_intMtx, m_floatMtx, m_stringMtx, m_doubleMtx","mutexes guarding the maps","include/podio/GenericParameters.h")],
["return values and final contents"])

p("C06","Collection IDs identify names one to one, stably",
"Within one ID table, the name for an ID and the ID for a name are inverse to each other (for names whose hashes differ), adding a name again returns the same ID and adds nothing, and unknown names and IDs are reported as absent. The ID of a name is its 32 bit MurmurHash3 and with that the same in every table and every process, whatever was added before, so tables rebuilt from stored IDs and names agree with tables that are filled from scratch. Concurrent additions and lookups behave like some sequential order.",
["histories","schedules","inputs"],"all operation sequences over add/lookup/present/construct-from-lists on a small alphabet of names up to a depth bound, all interleavings of 2-3 threads, and a set of names of all lengths 0..64 and byte values",
"Tests insert fixed names in one order; nothing checks cross-table agreement after arbitrary histories or under interleavings.",
["src/CollectionIDTable.cc","include/podio/CollectionIDTable.h","src/MurmurHash3.cpp"],
[("CollectionIDTable::add/name/collectionID/present","src/CollectionIDTable.cc")],
[("m_collectionIDs, m_names","parallel vectors","include/podio/CollectionIDTable.h")],
["CollectionIDTable calls"])

p("C07","Any object graph survives preparing for writing and reading back",
"For any graph of objects across collections (component and array members, vector members, one-to-many and one-to-one relations, relations via interfaces, links, subset collections, user data, and any number of empty slots), preparing the collections for writing and rebuilding them from their buffers yields collections with equal types, sizes, member values and vector contents and the same relations in the same order, pointing at the corresponding rebuilt objects. Relations that were never set come back as not available. Writing a collection with a one-to-many relation to an object that is in no collection is refused with an error, and does not change the result of later writing once that object has been added to a collection.",
["inputs","histories"],"all graphs up to a small number of objects and relation slots per collection, in every assignment of relation targets, with every collection/relation kind of a small data model; values from a boundary alphabet",
"The round-trip tests write one example event and need ROOT/SIO, so none of them runs here; offsets into shared relation and vector buffers depend on every combination of empty, single and multiple entries.",
["python/templates/CollectionData.cc.jinja2","python/templates/Collection.cc.jinja2","include/podio/detail/RelationIOHelpers.h","include/podio/detail/LinkCollectionData.h","include/podio/detail/LinkCollectionImpl.h","include/podio/UserDataCollection.h"],
[("prepareForWrite / prepareAfterRead / setReferences","python/templates/CollectionData.cc.jinja2"),("addSingleRelation, addMultiRelation and readers","include/podio/detail/RelationIOHelpers.h")],
[("begin/end index members and relation buffers","slices into shared vectors","python/templates/CollectionData.cc.jinja2")],
["collections obtained from a Frame built on the written buffers"])

p("C08","SIO files give back exactly the frames that were written",
"For any sequence of frames written to a file under any categories, with any selection of collections, the reader reports exactly those categories and entry counts, and reading an entry by index, sequentially, after skipping, or in any mixture gives the frame with exactly the written collections, contents, relations, parameters, versions and ID table. Reading past the end, an unknown category, or entries of another category returns nothing and leaves later reads correct. The file also returns the writing podio version and all data model definitions of the written collections, and reading with a restricted list of collections gives just those. Writing a collection that the frame does not have is refused and leaves the file as it was; a file whose writer was interrupted gives no frames; collections of older schema versions go through schema evolution. Files of the legacy layout can be read by index and sequentially in any mixture. The generic Reader and Writer choose the back end by file name, type and contents and hand every request on unchanged.",
["histories","crash_points"],"all write histories up to a small number of frames over two or three categories and collection selections, and all read histories (next/index/skip past the end) up to a depth bound, on the real reader/writer/block code over a byte-level stand-in of the SIO library",
"The SIO back end is not compiled here (no SIO library); the upstream tests write one fixed pattern of entries and read it back in order.",
["src/SIOReader.cc","src/SIOWriter.cc","src/SIOBlock.cc","src/SIOFrameData.cc","include/podio/SIOBlock.h","include/podio/SIOFrameData.h","src/SIOBlockUserData.cc","include/podio/detail/LinkSIOBlock.h","python/templates/SIOBlock.cc.jinja2","include/podio/Reader.h","include/podio/Writer.h"],
[("table of contents record and footer","src/SIOReader.cc"),("block factories and serialisation","src/SIOBlock.cc")],
[("table of contents","record positions per category","include/podio/SIOBlock.h")],
["SIOReader/Reader return values","Frames built from them"])

p("C09","Lazy reading is independent of the order of access",
"For a Frame built on stored data, the contents, relations and objects seen through any collection do not depend on which collections are requested before it, nor on how often, nor on intervening additions or preparations for writing. Stored collections are each unpacked at most once, and relations to collections that are not stored come back as not available while everything else is intact. Writing such a Frame again, whether or not anything was read before, gives the same stored contents.",
["histories","fault_sequences"],"all orders and repetitions of requests over a set of mutually and cyclically related collections up to a depth bound, with every subset of the collections missing from storage",
"Tests read the collections in a single order from complete files.",
["include/podio/Frame.h","python/templates/CollectionData.cc.jinja2","include/podio/detail/RelationIOHelpers.h","include/podio/detail/LinkCollectionData.h"],
[("doGet, unpack, setReferences recursion","include/podio/Frame.h")],
[("m_data (raw data)","collections not yet unpacked","include/podio/Frame.h")],
["contents and relation targets of collections got from the Frame"])

p("C10","Handles and collections never leak, dangle or free twice",
"For any sequence of creating, copying, moving, assigning, relating, adding to collections and destroying handles, mutable handles, interface and link objects, and collections, in any destruction order, every object is freed exactly once and not while a handle, relation or collection of a live owner still refers to it, and nothing is leaked (cycles of relations among objects outside collections excepted). Values reached through a surviving handle to an object outside any collection stay what they were.",
["histories"],"all operation sequences over object, interface, link and collection slots up to a depth bound, including move construction/assignment and self assignment of each, run under an address sanitizer with an exact allocation count",
"Upstream relies on sanitizer runs of fixed tests; a leak or use after free on an unusual destruction or assignment order needs the enumeration.",
["include/podio/utilities/MaybeSharedPtr.h","python/templates/Obj.cc.jinja2","python/templates/Object.cc.jinja2","python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","python/templates/Interface.h.jinja2","include/podio/detail/Link.h","include/podio/detail/LinkObj.h","include/podio/detail/LinkCollectionImpl.h"],
[("MaybeSharedPtr reference counting and release","include/podio/utilities/MaybeSharedPtr.h"),("CollectionData::clear","python/templates/CollectionData.cc.jinja2")],
[("control block","shared or owned-by-collection state","include/podio/utilities/MaybeSharedPtr.h")],
["allocation balance","address sanitizer"])

p("C11","Ownership and mutability rules are enforced without side effects",
"A freshly made or cloned object belongs to no collection until it is added to one, and from then on it belongs to exactly that collection: adding it to a second owning collection, adding an object without collection to a subset collection, creating objects in a subset collection, and turning a non-empty collection into or out of a subset collection are each refused with an error. Collections read from storage or handed out by a Frame are readable in full, and every change made through a mutable handle is seen through all other handles to the same object. A refused operation leaves all collections and objects exactly as they were.",
["histories"],"all operation sequences over create/push/subset/clear/clone/set on two owning and one subset collection per kind (data type, link) and a few handles, up to a depth bound, compared step by step with a reference model",
"The unit tests try each refusal once from one state and do not look at the state afterwards.",
["python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionImpl.h","python/templates/Object.cc.jinja2"],
[("push_back / create / setSubsetCollection checks","python/templates/Collection.cc.jinja2")],
[("m_isSubsetColl, object IDs","ownership state","python/templates/Collection.h.jinja2")],
["exceptions and collection contents"])

p("C12","Clones are equal, independent, and belong to no collection",
"Cloning an object, link or mutable handle (of a data type, in any ownership state) gives an object that has equal member values and vector contents, the same relation targets in the same order (or no relations and only the plain members if so requested), belongs to no collection and is not equal to the original. Later changes to members, vectors or relations of either one never show in the other, whichever is destroyed first.",
["inputs","histories"],"all small relation/vector contents of the original, all ownership states (free, collected, read back, in a subset), clone with and without relations, followed by all single modifications of either side and both destruction orders",
"Two unit tests clone one object in one state.",
["python/templates/Object.cc.jinja2","python/templates/MutableObject.cc.jinja2","python/templates/Obj.cc.jinja2","python/templates/macros/declarations.jinja2","include/podio/detail/Link.h","include/podio/detail/LinkObj.h"],
[("clone() and the Obj copy constructor","python/templates/Obj.cc.jinja2")],None,
["object values after cloning"])

p("C13","Members and relations of an object read back as they were set",
"On any object made by the user, each member, each element of a fixed-size array, each member of a component, each vector member and each one-to-one and one-to-many relation reads back exactly what was last set or added through any accessor form, in insertion order, without affecting any other member, relation or object. Sizes, begin/end ranges and indexed access of one-to-many relations and vector members agree with each other for every object, whether it is outside a collection, in a collection or read back, and access outside the range is refused where bounds are checked. A default-made object has the declared default values, no relations and empty vectors.",
["histories","inputs"],"all sequences of setters/adders on one to three objects of every member kind up to a depth bound and with boundary values, in every ownership state",
"Tests exercise a few members of a few types once.",
["python/templates/MutableObject.cc.jinja2","python/templates/Object.cc.jinja2","python/templates/macros/implementations.jinja2","include/podio/RelationRange.h","python/podio_gen/generator_utils.py"],
[("generated accessors","python/templates/macros/implementations.jinja2"),("RelationRange","include/podio/RelationRange.h")],None,
["accessors of objects"])

p("C14","Object identity: equality, hashing, ordering and IDs agree",
"Two handles, mutable or not and also through interfaces, compare equal exactly if they refer to the same object, equal handles have equal hashes, and the ordering is a strict total order on available objects that is consistent with equality and stable while the objects live. An object outside collections reports the untracked ID, an object in an owning collection reports that collection's ID and its position, an element of a subset reports the ID in its owning collection, and after reading back IDs are the same as at writing. Empty handles are unavailable, and availability is reported correctly for each handle.",
["histories","inputs"],"all pairs and triples of handles drawn from all creation paths (default, empty, copy, mutable/immutable, interface, collection element, subset element, relation target, clone, read back) over small graphs",
"Tests compare a few handles.",
["include/podio/ObjectID.h","include/podio/detail/OrderKey.h","python/templates/Object.h.jinja2","python/templates/Object.cc.jinja2","python/templates/Interface.h.jinja2","include/podio/detail/Link.h","include/podio/utilities/MaybeSharedPtr.h"],
[("operator==, operator<, hash, id()","python/templates/Object.h.jinja2")],None,
["comparisons, hashes, ids"])

p("C15","Collections behave as sequences of their objects",
"After any sequence of creating, adding, clearing and moving, a collection is exactly the sequence of objects added in order: size, emptiness, indexed and bounds-checked access, iteration (forward and index-based, const and mutable) and standard ranges give the same objects, and checked access beyond the end throws. Fetching one member for all elements, or for the first so many, returns that member in order, and building a collection from a range gives an owning collection for new mutable objects, a subset for collected ones, and refuses ranges whose objects cannot be taken. Type names, data-type names and schema version reported by a collection are those of its definition.",
["histories","inputs"],"all sequences of create/push/clear/move up to a depth bound for every collection kind, all indices in and out of range, all counts for member extraction, all small ranges of mutable/collected/uncollected objects",
"Tests walk a few fixed sizes.",
["python/templates/Collection.h.jinja2","python/templates/Collection.cc.jinja2","python/templates/macros/collections.jinja2","python/templates/macros/iterator.jinja2","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionIterator.h"],
[("generated collection and iterator classes","python/templates/Collection.h.jinja2")],None,
["collection interface"])

p("C16","Interface objects stand for exactly the object put into them",
"An interface object made from any of its types, or from a mutable handle of one, reports exactly that type as its kind, gives back the same object when asked for that type, refuses any other type with an error, and forwards every member, relation, ID and availability query to it. Copies and assignments of interface objects (including between different held types) keep value and identity independent of the source. An empty interface object is unavailable.",
["histories","inputs"],"all sequences of construct/copy/move/assign over the types of an interface up to a depth bound; every query on every held type",
"Tests use one interface with fixed contents.",
["python/templates/Interface.h.jinja2"],
[("type-erased holder","python/templates/Interface.h.jinja2")],None,
["interface object calls"])

p("C17","Links and link collections keep both ends and the weight",
"A link always reports the from-object, the to-object and the weight that were last set, through any accessor (named, typed or structured binding), also when either end is an interface, when only one end or none is set, and when both ends have the same type. Link collections keep this for all their links in order through preparing, writing and reading back, in subsets, clones, moves and after clearing. The type names, relation names and IDs they report are the ones of their definition.",
["histories","inputs"],"all assignments of ends and weights over up to three links per collection with ends in up to two collections, each end optionally unset, all accessor forms, through round trip and subset",
"Tests use a few links with all ends set.",
["include/podio/detail/Link.h","include/podio/detail/LinkObj.h","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionData.h","include/podio/detail/LinkCollectionIterator.h"],
[("LinkT / MutableLinkT / LinkCollection","include/podio/detail/Link.h")],None,
["link accessors"])

p("C18","The link navigator answers exactly what the links say",
"For any link collections, asking for the objects linked to an object returns precisely the other ends of all links that have this object at the respective end, with the links' weights, one entry per link, and an empty result if there are none. This holds in both directions, for equal types at both ends (where the direction must be chosen by tag), for interface ends, for several links between the same pair, and for subset link collections.",
["inputs"],"all multigraphs with up to three from- and three to-objects and up to four links, and every query object in and outside of the graph, in every query direction",
"Tests use a handful of links, few weights and no repeated pairs.",
["include/podio/LinkNavigator.h"],
[("LinkNavigator maps","include/podio/LinkNavigator.h")],None,
["LinkNavigator::getLinked"])

p("C19","User data collections are faithful vectors with storage",
"For every supported number type a user data collection behaves as a vector of that type: elements, size, resizing, clearing, iteration, push, indexed and checked access and moving in and out of vectors all agree with the sequence of operations, and out-of-range checked access throws. Preparing and reading back gives the same values bit for bit, under its ID and type name, and asking for subset mode has no effect.",
["histories","inputs"],"all operation sequences up to a depth bound on each of the 10 supported types with boundary values",
"Tests use a few values of two types.",
["include/podio/UserDataCollection.h","src/UserDataCollection.cc"],
[("UserDataCollection","include/podio/UserDataCollection.h")],None,
["UserDataCollection calls"])

p("C20","Schema evolution applies exactly the right function",
"For any set of registered types, versions and conversion functions, reading buffers of an old schema version applies exactly the function registered for that type and version (a user-supplied one has precedence over an automatic one whatever the registration order), buffers of the current version are passed through unchanged, and unregistered types or versions are reported and never touched. Buffers can be made for exactly the known types and versions by the creation function that applies to that version, subset or not, and unknown ones are reported as such without side effects.",
["histories","inputs"],"all registration orders of up to three types, versions and priorities and all queries over known/unknown types and versions 0..current+1",
"Schema evolution tests need ROOT; only one evolution per type is ever registered.",
["src/SchemaEvolution.cc","include/podio/SchemaEvolution.h","src/CollectionBufferFactory.cc","include/podio/CollectionBufferFactory.h"],
[("SchemaEvolution::registerEvolutionFunc/evolveBuffers","src/SchemaEvolution.cc"),("CollectionBufferFactory::createBuffers","src/CollectionBufferFactory.cc")],
[("m_evolutionFuncs, m_versionMapIndex","function table","include/podio/SchemaEvolution.h")],
["evolved buffers"])

p("C21","Data model definitions and metadata are registered and carried faithfully",
"For any registration history, looking up a data model by name or index gives the definition, version and relation/vector-member names that were registered for it, an index is stable, repeated registration of the same name changes nothing, and unknown names or indices give the documented fallback. The definitions gathered while writing are exactly those of the models of the collections written, each once, and what is read from a file answers definition, version and available-model queries with exactly the stored data.",
["histories"],"all register/lookup sequences over a small alphabet of model names up to a depth bound, and all subsets of collection types for gathering",
"Tests look up the one test model.",
["src/DatamodelRegistry.cc","include/podio/DatamodelRegistry.h","src/DatamodelRegistryIOHelpers.cc","include/podio/utilities/DatamodelRegistryIOHelpers.h"],
[("DatamodelRegistry","src/DatamodelRegistry.cc"),("DatamodelDefinitionCollector/Holder","src/DatamodelRegistryIOHelpers.cc")],
[("m_definitions, m_relations","registered definitions","include/podio/DatamodelRegistry.h")],
["registry lookups"])

p("C22","The schema comparison verdict is right for every pair of models",
"Comparing two data model definitions reports exactly the differences between them: added, dropped and renamed components, data types and members, changed member types and moved relations, and nothing for identical models. Every unsupported change (added or dropped vector members or relations, changes between arrays and non-arrays and from or to a component) is reported as an error and makes the comparison and the generation fail, every potential rename (of members of one type, or of components with the same member names) that is not declared in the evolution file as a warning, which makes the generation fail, and all other pairs are accepted. Ill-formed evolution files are refused. The verdict does not depend on the order in which types or members are listed.",
["inputs","configurations"],"all pairs of models from a small grammar of components/data types/members (types, presence, relation kinds), with and without evolution-file entries, compared against an independent oracle",
"Fourteen tests check one example per kind of change; combinations and orders are not covered.",
["python/podio_schema_evolution.py","python/podio_gen/schema_evolution.py"],
[("DataModelComparator, RootIoRule","python/podio_schema_evolution.py")],None,
["detected schema changes, errors, warnings"])

p("C23","Component and member renames are carried into generated evolution code",
"For any old and new versions of a model that the tool accepts, the generated code defines for every old version of every component and kept data type exactly the layout it had in that version (nested components included), and the current one under the name of the current version. The generated conversion rules are exactly those needed: for each old version every renamed member gets the value it had under its old name and nothing else is touched; types without renames get no conversion, and several old versions, given in any order and with any version numbers, do not influence each other. The generated dictionary lists exactly the classes that exist, with the version they belong to. Data of a renamed data type of any old version is read into buffers and collections of the new data type. All this also holds for models that extend another one.",
["configurations","programs"],"all histories of up to three model versions over eight shapes of a type (member added, dropped, renamed, widened, reordered, whole type added or dropped; in components, nested components and data types), generated with the real generator, compiled and run",
"Upstream tests one example model pair with ROOT.",
["python/podio_gen/cpp_generator.py","python/podio_gen/schema_evolution.py","python/templates/CollectionData.cc.jinja2","python/templates/Collection.cc.jinja2","python/templates/evolution.h.jinja2"],
[("_prepare_for_schema_evolution","python/podio_gen/cpp_generator.py")],None,
["generated files","converted buffers"])

p("C24","Member declarations are parsed exactly by their grammar",
"Every member declaration string that follows the documented grammar (type, optional default, name, optional unit, optional description; fixed-size arrays, fixed-width integers, namespaced types; in any spacing) yields exactly its type, name, default, unit and description. Every string outside the grammar (unknown array element types, bad identifiers, missing description where it is required, malformed arrays or defaults) is refused with a definition error, and never misread.",
["inputs"],"all strings assembled from a token grammar up to a bounded length (types x array forms x defaults x names x units x descriptions x spacings), and all single-token mutations, compared with an independent parser",
"58 unit tests use about a hundred fixed strings.",
["python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py"],
[("MemberParser","python/podio_gen/podio_config_reader.py"),("MemberVariable","python/podio_gen/generator_utils.py")],None,
["parsed members or errors"])

p("C25","Ill-formed data models are rejected, well-formed ones accepted",
"A data model definition with a structural fault in any place (unknown keys in a type definition, missing required fields, type or member names used twice, members of unknown or disallowed types, undefined relation targets, bad interface or link definitions, missing or invalid schema version) is rejected with an error before anything is generated. A definition without faults is accepted, and a fault in one type is found whatever the other types are and in whatever order they appear.",
["inputs","configurations"],"a set of well-formed base models, all single faults from a fault catalogue at every applicable place, all pairs of types orders, with an independent well-formedness oracle",
"Validator tests inject some faults, each in one place.",
["python/podio_gen/podio_config_reader.py"],
[("ClassDefinitionValidator, PodioConfigReader","python/podio_gen/podio_config_reader.py")],None,
["DefinitionError or accepted model"])

p("C26","The embedded model definition reproduces the model",
"The JSON definition that is embedded in the generated code, read back as a data model definition, gives the same model: same schema version, options, components, data types, links and interfaces with the same members (type, default, unit, description), relations, and extra code, so that code generated from it is the same. This holds for any valid model.",
["inputs","configurations"],"all models from a bounded grammar over member kinds, defaults, units, descriptions with special characters, relations, extra code, interfaces, links and options",
"One small set of encoder tests and a dump test of the test model that needs ROOT.",
["python/podio_gen/generator_utils.py","python/podio_gen/cpp_generator.py","python/templates/DatamodelDefinition.h.jinja2"],
[("DataModelJSONEncoder","python/podio_gen/generator_utils.py"),("_write_edm_def_file","python/podio_gen/cpp_generator.py")],None,
["embedded JSON and re-generated code"])

p("C27","Code generation is deterministic, idempotent and incremental",
"Generating code for a model is a function of the model and the options alone: repeated runs, runs into an already populated directory, and runs under different hash seeds produce the same set of files with the same contents. A run over unchanged input rewrites no file, a run after a change rewrites exactly the files whose contents differ (and possibly the list for the build), the list of generated files handed to the build lists each generated file exactly once, and dry runs and runs that are refused write no files.",
["histories","configurations"],"all sequences up to a depth bound of generator runs over several model variants and options into the same directory, under several hash seeds",
"Nothing runs the generator twice and compares.",
["python/podio_gen/generator_base.py","python/podio_gen/cpp_generator.py","python/podio_class_generator.py"],
[("write_file_if_changed, _write_cmake_lists_file","python/podio_gen/generator_base.py")],None,
["generated directory tree and modification times"])

p("C28","Generated classes match their definition for every model",
"For every valid model, the generated code compiles, and each generated class has exactly the declared members, relations, vector members, components and accessors, with the declared types, default values, units of initialisation, names (in plain and get/set syntax) and namespaces. The reported schema version, type names and collection names are those of the definition, and extra code is inserted where it is declared.",
["programs","configurations"],"all small models from a bounded grammar over member kinds x relation kinds x namespace x options (get syntax, expose members), compiled and probed with generated checking programs",
"Tests build three fixed models.",
["python/podio_gen/cpp_generator.py","python/podio_gen/generator_base.py","python/templates/Object.h.jinja2","python/templates/Component.h.jinja2","python/templates/Data.h.jinja2"],
[("CPPClassGenerator","python/podio_gen/cpp_generator.py")],None,
["compiled probe programs"])

p("C29","File name patterns expand like shell globs",
"Expanding a file pattern returns exactly the existing paths that match it under shell rules (*, ?, character classes, brace alternatives, home directory), each as often as the shell would and in sorted order per brace alternative. A pattern that matches nothing is reported as an error, and a name without wildcard characters is returned if and as it stands.",
["inputs"],"all patterns up to a bounded length over a small alphabet of letters and wildcard characters against all small directory contents, compared with an independent matcher",
"Tests expand a few patterns.",
["src/Glob.cc","include/podio/utilities/Glob.h"],
[("expand_glob, is_glob_pattern","src/Glob.cc")],None,
["returned paths or errors"])

p("C30","Text and JSON output show the object as it is",
"Printing any object, link, interface, component or parameter set shows every member value, vector member and relation of it exactly once in its layout (a collection as a table of its plain members that are no arrays, followed by the relations and vector members of each element), marks unavailable objects as such, ends for cyclic relations, and never changes the object or the stream's formatting for later output. JSON output of any collection contains each member with its value, relations as the referred IDs, and for subset collections the referred IDs.",
["inputs"],"all small object graphs of the model (including empty, cyclic, unset relations and interfaces) with boundary values, checked against an independent renderer",
"One smoke test prints a few objects.",
["python/templates/macros/printing.jinja2","python/templates/Collection.cc.jinja2","python/templates/Object.cc.jinja2","python/templates/macros/utils.jinja2","include/podio/detail/Link.h","include/podio/detail/LinkCollectionImpl.h","src/GenericParameters.cc"],
[("operator<<, print, to_json","python/templates/Collection.cc.jinja2")],None,
["output streams and JSON values"])

p("C31","Version numbers encode, decode, compare and print consistently",
"Encoding a version in its 64-bit form and decoding it gives the same version for all major, minor and patch numbers in range, the order of versions is the lexicographic order of their parts and agrees with equality and with the order of encodings, and the printed form is major.minor.patch. The build version equals the one declared by the project, and a version given to the Python tools as a string or as numbers is parsed to exactly its parts, missing ones being 0, while malformed strings are refused.",
["inputs"],"all triples from a boundary alphabet, all pairs for comparisons, and all short version strings",
"Tests check a few versions.",
["podioVersion.in.h","python/podio_gen/podio_config_reader.py","python/podio/version.py"],
[("podio::version","podioVersion.in.h")],None,
["version functions"])

p("C32","The model diagram shows exactly the model",
"The graph produced for a data model has exactly one node for every data type and for every interface or upstream type that a relation refers to, named like the type, and exactly one edge per declared relation (or per association type, in place of a node) with the right direction and the colour of its kind, and no others. Filtered types appear neither as nodes nor as ends of edges, and the chosen groups contain exactly their types. This holds for any valid model, a model that is not valid gives no graph.",
["inputs","configurations"],"all models from a bounded grammar over relations among up to three types and all filter/group options",
"Tests render one example.",
["tools/podio-vis"],
[("ModelToGraphviz","tools/podio-vis")],None,
["produced graph source"])

p("C33","Models that extend another model use its types unchanged",
"A model may use the data types, components and interfaces of an upstream model wherever it could use its own, and gives the same code as if they were its own except that upstream types are included and never generated again. An interface or link with the name of an upstream type is refused, and an undefined name is refused even if it resembles an upstream one.",
["configurations","programs"],"all placements of upstream types in members, components, relations, vector members, interfaces and links of a small extension model, with options on and off",
"Two fixed extension models are built.",
["python/podio_gen/podio_config_reader.py","python/podio_gen/cpp_generator.py","python/podio_gen/generator_base.py"],
[("upstream model handling","python/podio_gen/podio_config_reader.py")],None,
["generated files, errors"])

p("C34","ROOT-based files give back exactly the frames that were written",
"For any sequence of frames written to a TTree or RNTuple based ROOT file under any categories, reading them by index, sequentially or selectively gives frames with exactly the written collections, parameters, versions and ID table.",
["histories"],"all write and read histories up to a small depth on the ROOT back ends",
"The ROOT based tests cannot run here.",
["src/ROOTReader.cc","src/ROOTWriter.cc","src/RNTupleReader.cc","src/RNTupleWriter.cc"],
[("ROOTReader / ROOTWriter","src/ROOTReader.cc")])
p("C35","Conversion to and from Arrow tables keeps all frame data",
"Converting any frame, or any selection of its collections, to an Arrow table and back gives a frame with the same collections (type, values of all members, arrays, components and vectors, subset or not, collection IDs), relations in the same order (also via interfaces and links, to collections outside the selection and to nothing) and parameters, also when frames are converted repeatedly or converted back and forth. Every row of a table of several frames gives its frame, however the table is laid out: concatenated, sliced, split or combined into any chunks, with columns in any order or left out. Collections that the frame does not have, user data collections, collections with the name of the parameter column, rows out of range, and tables with repeated columns or without the necessary metadata are refused with an error.",
["inputs","configurations","histories"],"all selections of ten collections of every kind, all kinds of members with small, large and extreme values, and all layouts of tables of up to a few rows, on the real conversion and generated mappers over a stand-in of the Arrow library",
"The Arrow based tests are not built here (no Arrow library), and they convert fixed frames in one layout; offsets into child arrays depend on every combination of rows, slices and sizes.",
["src/ArrowFrameConverter.cc","src/ArrowFrameData.cc","src/ArrowConverterRegistry.cc","src/ArrowTypeRegistry.cc","src/ArrowUtils.cc","python/templates/ArrowMapper.cc.jinja2","python/templates/macros/arrow.jinja2","python/podio_gen/cpp_generator.py"],
[("ArrowFrameConverter","src/ArrowFrameConverter.cc"),("rows and slices","src/ArrowFrameData.cc"),("generated mappers","python/templates/ArrowMapper.cc.jinja2")],
[("columns of a table","list and struct arrays with offsets","src/ArrowFrameData.cc")],
["Frames built on ArrowFrameData, Arrow tables"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    import re
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
