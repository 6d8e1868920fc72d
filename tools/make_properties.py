import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A Frame shared by several threads behaves like one name-to-collection map",
"When several threads put collections into one Frame, get them, and list what is available, every call has the result it would have if the calls had run one at a time in some order that respects their real-time order. Exactly one of several puts under one name succeeds and every other one throws invalid_argument and leaves the Frame as it was; a collection that was put stays retrievable, with its contents, its ID and at one address, for the Frame's lifetime. None of these calls races with another on memory.",
["schedules","histories"],"Every interleaving, at the granularity of single memory accesses, of up to six threads issuing any mix of put (same or different names), get (typed, untyped, by ID), availability, name and ID-table queries on one Frame.",
"The unit tests put from a handful of std::threads on whatever schedule the kernel happens to produce; a lost update or a torn read needs one particular interleaving and leaves no trace otherwise.",
["include/podio/Frame.h","src/CollectionIDTable.cc","include/podio/CollectionIDTable.h"],
[("mutex guarded collection map, try_emplace on put","include/podio/Frame.h FrameModel::put/doGet/availableCollections"),("locked ID table","src/CollectionIDTable.cc")],
["return values and exceptions of put/get/getAvailableCollections/getName","memory accesses"],
None,[("m_collections","unpacked or put collections by name","include/podio/Frame.h"),("m_idTable","name to ID mapping","include/podio/Frame.h")])

p("C02","Collections from storage are unpacked once and seen complete by every thread",
"For a Frame built from stored data, a collection that is in the data is found by every get, from any thread, by any name order, and all callers receive the same object. What a caller receives is complete: all elements are there, in order, with the right IDs, and every relation to a collection that is in the data is already resolved, also in cycles. No get races with another on memory.",
["schedules","histories"],"Every interleaving of up to five threads getting overlapping sets of collections, whose relations form any directed graph, cycles and missing targets included, from one Frame with data of any type mix.",
"Tests with more than one reading thread need ROOT or SIO and never overlap two unpackings of one collection on purpose; the windows between taking the raw buffers, publishing the collection and resolving its relations are a few instructions wide.",
["include/podio/Frame.h","python/templates/CollectionData.cc.jinja2","python/templates/Collection.cc.jinja2","include/podio/detail/LinkCollectionData.h","include/podio/UserDataCollection.h"],
[("lazy unpacking under the data mutex, then publication in the map","include/podio/Frame.h FrameModel::doGet"),("relation resolution through the collection provider","python/templates/CollectionData.cc.jinja2 setReferences")],
["get results in every thread, read at once after the call","memory accesses"],None,[("m_retrievedIDs","collections whose relations were already requested","include/podio/Frame.h")])

p("C03","Frame parameters are a thread-safe map per value type",
"Setting, getting, counting, listing, copying and clearing parameters from several threads gives results that some one-at-a-time order of the calls explains: a get returns the last value set for that key and type, as one whole vector, never a mixture, and a listing pairs every key with a value it had at one instant. Parameters of different types never influence each other, and no such call races with another on memory.",
["schedules","histories"],"Every interleaving of up to five threads issuing any mix of set, get (scalar and vector), getN, key listing, key/value listing, copy and print over int, float, double and string parameters with colliding keys.",
"The multithreaded unit test inserts distinct keys and looks at the end state only; it cannot see a stale, torn or mixed value, nor an unlocked size read.",
["include/podio/GenericParameters.h","src/GenericParameters.cc","include/podio/Frame.h"],
[("one mutex per value type around every map access","include/podio/GenericParameters.h"),("all four locks taken together for a copy","src/GenericParameters.cc")],
["results of set/get/getN/getKeys/getKeysAndValues/copy","memory accesses"])

p("C04","Collection IDs and names map one-to-one, the same in every process",
"Within a table every name has one ID and every registered ID leads back to a name it was assigned for; adding a name again, from whatever thread, returns the same ID and adds nothing. The ID of a name depends on the name alone, so tables built in different orders, threads or processes agree. A table rebuilt from the stored names and IDs answers every query as the original did.",
["schedules","histories","inputs"],"Every interleaving of up to five threads adding and looking up arbitrary names (empty, long, binary, shared prefixes) and IDs, in every order, with rebuilt tables in between, and with allocations failing inside an add.",
"Tests add a few fixed names from one thread, and a hash of a few fixed strings; they exercise neither concurrent adds of one name nor the state after an add that failed half way.",
["src/CollectionIDTable.cc","include/podio/CollectionIDTable.h","src/MurmurHash3.cpp"],
[("parallel vectors of names and IDs under a mutex","src/CollectionIDTable.cc"),("ID = hash of the name","src/CollectionIDTable.cc add")],
["add/name/collectionID/present/names/ids"])

p("C05","Preparing a collection for writing is thread safe and can be repeated",
"Any number of threads may prepare one collection for writing, in any order and any number of times, each through any Frame call that hands it out for writing, and from the moment a call returns the write buffers hold the collection's contents exactly once: every element, every vector member range, every relation and subset reference, in order. A preparation that fails (a one-to-many relation to an object that is in no collection, a failed allocation) reports it by an exception, and one that succeeds later leaves buffers just as if it had been the first.",
["schedules","histories","fault_sequences"],"Every interleaving of up to five threads preparing the same and related collections of all kinds (plain, with vector members, relations, links, subset, user data) and reading the buffers after return; every point at which an allocation or an untracked relation makes a preparation fail, followed by a retry.",
"Tests prepare from one thread, once. Double preparation by two threads, or a second preparation after a failed first, only shows as duplicated data on disk.",
["python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionData.h","include/podio/UserDataCollection.h"],
[("storage mutex and prepared flag checked under it","python/templates/Collection.cc.jinja2 prepareForWrite"),("buffer filling","python/templates/CollectionData.cc.jinja2 prepareForWrite")],
["getCollectionForWrite, getBuffers","memory accesses"])

p("C06","Type registries answer by registered type and version, in any registration order",
"After registration, asking for read buffers of a type and version gives buffers made by the function registered for exactly that version (or, for a version older than the newest registered one that has no function of its own, by one that was registered for a newer version of that very type), asking for an unknown type or a version newer than every registered one gives none, and evolving calls exactly the function registered for that type and version, with a user-supplied function taking precedence over a generated one regardless of which was registered first. Registering a datamodel under a known name returns the index it already has and changes nothing; every lookup by name, by index or by type returns what was first registered. After registration any number of threads may use these registries without racing.",
["histories","schedules"],"Every sequence of registrations of types, versions (with gaps), priorities and datamodels, followed by every interleaving of concurrent lookups.",
"Tests register one model in static initialisation order and look up what is there; registration orders that only a different link order would produce are never run.",
["src/CollectionBufferFactory.cc","src/SchemaEvolution.cc","src/DatamodelRegistry.cc","include/podio/SchemaEvolution.h","include/podio/CollectionBufferFactory.h"],
[("version indexed function vectors","src/CollectionBufferFactory.cc, src/SchemaEvolution.cc"),("registration by name, first one wins","src/DatamodelRegistry.cc")],
["createBuffers, evolveBuffers, registerDatamodel and its getters"])

p("O01","Every object lives exactly as long as a handle or a collection owns it",
"An object that was never added to a collection lives until its last handle is gone, whichever threads drop the handles; one that is in a collection lives as long as that collection, however handles, moves, clears, subset collections, relations and Frames are combined, and handles that outlive it can still be destroyed and reassigned. Nothing is freed twice, used after it was freed, or leaked, at any point of any such history.",
["histories","schedules"],"Every sequence of creating, copying, assigning, adding, clearing, moving, cloning, relating and destroying handles, collections, interface handles, links and Frames; every interleaving of threads copying and dropping handles of one object.",
"Leaks and dangling handles depend on the order in which owners go away; tests run a few orders, and the baseline build runs without sanitizers and without the unit tests that need Catch2.",
["include/podio/utilities/MaybeSharedPtr.h","python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","python/templates/Obj.cc.jinja2","python/templates/Interface.h.jinja2","include/podio/detail/Link.h","include/podio/Frame.h"],
[("control block with atomic count and ownership flag","include/podio/utilities/MaybeSharedPtr.h"),("collection takes ownership on push_back/create and deletes on clear/destruction","python/templates/CollectionData.cc.jinja2")],
["allocations and frees","memory accesses"])

p("O02","A collection holds exactly what was added, in order, under every history",
"After any sequence of operations a collection has the elements a plain list would have: size, order, contents through index, bounds-checked access and all iterator kinds agree, every element knows its index and its collection's ID, and mutable access changes exactly that element. Subset collections refer to the very same objects as the collections that own them. A rejected operation (adding an object twice, an untracked object to a subset, creating in a subset, switching the kind of a non-empty collection, access out of range) throws and leaves the collection unchanged.",
["histories","inputs"],"Every sequence of create, push_back, clear, move, from-range, subset, setID, iteration and access on collections of every generated kind, links and user data of every supported type.",
"Tests run fixed sequences of a few operations on a few types; interactions such as clear after move after prepare are not among them.",
["python/templates/Collection.cc.jinja2","python/templates/Collection.h.jinja2","python/templates/macros/iterator.jinja2","include/podio/UserDataCollection.h","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionIterator.h"],
[("deque of object pointers with index assignment","python/templates/Collection.cc.jinja2"),("subset flag and checks","python/templates/Collection.cc.jinja2")],
["public collection API"])

p("O03","Clones and copies of handles have the documented identity",
"Copies and conversions of a handle refer to the same object and compare and hash equal, a clone is a new object that compares unequal, holds the same values and, if relations are cloned, refers to the same related objects in the same order, and from then on neither a change to the clone nor to the original is visible through the other. This holds whether the original is free, in a collection, freshly created or read back from storage, and a clone without relations has none.",
["histories","inputs"],"Every sequence of building, copying, cloning and then modifying objects with scalar, array, vector and relation members, in every ownership state, followed by storing and reading both.",
"Tests clone free objects of two types and look at them at once; aliasing that shows only after a later push to a shared buffer is not covered.",
["python/templates/Object.cc.jinja2","python/templates/MutableObject.cc.jinja2","python/templates/Obj.cc.jinja2","python/templates/macros/implementations.jinja2","include/podio/detail/Link.h"],
[("copy constructor of the internal object, and slices copied on clone","python/templates/macros/implementations.jinja2")],
["handle comparison, hashing, getters, relation ranges"])

p("O04","Relations and vector members return exactly what was added, in order",
"The objects reached through a relation, one-to-one or one-to-many, by index, bounds-checked access or iteration, are exactly the ones that were set or added to that very object, in order, whatever else was added to other objects of the collection in between; an unset one-to-one relation gives an unavailable handle and access out of range throws. Values of vector members behave the same, and a relation through an interface keeps the concrete type of what was put in. This holds before the collection is prepared, after it, after a move, and after it was read back.",
["histories","inputs"],"Every order of interleaved additions to several objects in and outside collections, self and cyclic relations, interface relations, and re-reading at every stage of the life of the collection.",
"Relations live in buffers shared by all elements of a collection with per-element ranges; only particular orders of additions make ranges overlap or shift, and tests use one.",
["python/templates/macros/implementations.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/RelationRange.h","python/templates/Interface.h.jinja2","include/podio/detail/RelationIOHelpers.h"],
[("begin/end ranges into shared buffers, rebuilt when prepared or read","python/templates/CollectionData.cc.jinja2"),("type-erased interface handles","python/templates/Interface.h.jinja2")],
["getters, relation ranges, isA/as"])

p("O05","Links and link navigation report exactly the links that exist",
"For every object the navigator returns exactly the partners, with their weights, that the links in the collection connect it to in that direction, each as often as it is linked and nothing else, whether ends are unset, shared or of one and the same type. A link hands out the end points and weight that were last set on it, and all of this is the same after the links were stored and read back.",
["histories","inputs"],"Every link multigraph between collections (parallel links, unset ends, interface ends) built in any order, in owning and subset collections, before and after storage.",
"The unit tests look at two or three hand-written graphs and no graph that went through storage.",
["include/podio/LinkNavigator.h","include/podio/detail/Link.h","include/podio/detail/LinkCollectionImpl.h","include/podio/detail/LinkCollectionData.h"],
[("two multimaps keyed by object identity","include/podio/LinkNavigator.h")],
["getLinkedFrom/getLinkedTo/getLinked, link getters"])

p("O06","A failing allocation never corrupts, loses or leaks data",
"When memory runs out inside an operation on a Frame, a collection, a handle, user data or an ID table, the operation throws bad_alloc; nothing that existed before is damaged or lost (a collection handed over by rvalue may be consumed), nothing leaks, and the same objects can be used, and destroyed, afterwards. Repeating the failed operation then has the effect it would have had at first, and everything read back afterwards agrees with a history in which the failed call either did not happen or happened completely; a collection whose lazy unpacking failed is never seen incomplete.",
["fault_sequences","histories"],"Every position of one or several failing allocations in every operation of every history of Frame, collection, relation, user data and ID-table calls.",
"No test makes an allocation fail, so no error path of this kind has ever run.",
["include/podio/Frame.h","src/CollectionIDTable.cc","python/templates/Collection.cc.jinja2","python/templates/CollectionData.cc.jinja2","python/templates/MutableObject.cc.jinja2","include/podio/GenericParameters.h","include/podio/utilities/MaybeSharedPtr.h"],
[("order of allocation and state change in each operation","the listed files")],
["exceptions, later reads, allocations and frees"],"operator new is replaced at link time; no change to the repository is needed")

p("O07","Printing and conversion to JSON work for whatever there is, and change nothing",
"Any object, handle, interface handle, link, collection, user data or parameter set can be printed, whatever its state: empty, not available, with relations that are empty, refer to themselves or each other or to collections that are not there, subset collections some or all of whose elements are missing, freshly made, owned by a Frame or read back. Printing ends, uses no memory that is not there, contains the ID and all values the object or collection has in the order of the declaration, and leaves the contents and the format of the stream as they were. The same content gives the same text: twice in a row, while other threads print or use the same Frame, through an interface, and after it was stored and read back. The same holds for the conversion of objects, links and collections to JSON (if enabled): every member, vector member, component and relation under its name with its value, relations and elements of subset collections as IDs (elements of subset collections of links as links), and what is not available as null.",
["inputs","histories","schedules"],"Every content and relation graph of collections of every kind with any part missing, every ownership state, stream format, and interleaving of up to four threads that print and so look at a Frame for the first time.",
"Tests print and convert a few fixed complete events; printing is what users do with events that look wrong, that is incomplete ones.",
["python/templates/macros/implementations.jinja2","python/templates/macros/collections.jinja2","python/templates/Interface.h.jinja2","include/podio/detail/Link.h","include/podio/detail/LinkCollectionImpl.h","include/podio/UserDataCollection.h","src/GenericParameters.cc","include/podio/ObjectID.h"],
[("operator<< of objects, which prints related objects of other types in full","python/templates/macros/implementations.jinja2 ostream_operator"),("operator<< of collections, restoring the format","python/templates/macros/collections.jinja2"),("to_json of objects, collections, components, links and IDs","python/templates/macros/implementations.jinja2 json_output, python/templates/Collection.cc.jinja2, python/templates/Component.cc.jinja2, include/podio/detail/Link.h, include/podio/detail/LinkCollectionImpl.h, include/podio/ObjectID.h")],
["text on the stream, stream state, contents afterwards"])

p("S01","What is written is what is read back",
"Every Frame read from a finished file has exactly the collections and parameters that were written, with equal values for every member, vector member, relation, link, subset reference and user datum, in the same order, whatever the types, sizes (empty included) and numbers of Frames and categories. Relations point to the corresponding element of the corresponding collection of the same entry. Writing a Frame that was itself read gives the same again. Several threads may write and read at the same time, each with readers and writers of its own, also one and the same Frame. Files up to 4 GiB are considered: record positions are 32 bits wide.",
["inputs","histories","fault_sequences","schedules"],"Every Frame content over all generated member kinds and several entries and categories, with a storage that returns short reads and writes and interrupts calls, any order and repetition of reads before the next write, and every interleaving of up to four threads that write, also one common Frame, and read.",
"Round trip tests need ROOT or SIO, which the baseline lacks, and write one fixed event layout.",
["src/SIOWriter.cc","src/SIOReader.cc","src/SIOFrameData.cc","src/SIOBlock.cc","include/podio/SIOBlock.h","python/templates/SIOBlock.cc.jinja2","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkSIOBlock.h","include/podio/UserDataCollection.h","src/sioUtils.h"],
[("blocks per collection plus an ID table block per record","src/SIOWriter.cc, src/SIOBlock.cc"),("conversion to and from plain buffers","python/templates/CollectionData.cc.jinja2")],
["Reader API: readEntry, readNextEntry, Frame API"],"the SIO library is replaced by a simulated one over a simulated disk; no change to the repository is needed")

p("S02","Entries can be read in any order, any number of times, independently",
"Reading entry i of a category gives the same Frame however many other entries of whatever categories were read before it, in whatever order, and sequential reading continues after the entry last asked for in that category. Reading past the end, or a category the file does not have, gives no data and disturbs no other reading, and the reader reports for every category exactly the number of entries written. Frames already handed out stay valid and independent of the reader, and a reader that opens another file answers for that file alone.",
["histories"],"Every interleaving of sequential and random reads over several categories, of Frames being used before and after further reads and after the reader is gone, and of several readers on one file.",
"Tests read forward, plus one or two fixed jumps.",
["src/SIOReader.cc","src/SIOBlock.cc","src/sioUtils.h","include/podio/SIOReader.h"],
[("table of contents with record positions","src/SIOBlock.cc SIOFileTOCRecord"),("next-entry counter per category","src/SIOReader.cc")],
["readEntry/readNextEntry/getEntries/getAvailableCategories"])

p("S03","Selecting collections affects what is selected and nothing else",
"A file written with a selection holds exactly the selected collections and all parameters, and reading with a selection makes exactly the selected ones available; asking for a collection the file's entry does not have is reported as invalid_argument, and writing one that the Frame does not have by an exception, without adding an entry. Everything selected is read as it was written; relations to elements of collections that are absent are unavailable handles that keep their place in a range, and using what was read never crashes. A Frame read in part can be written again.",
["inputs","histories"],"Every subset of collections at write time and at read time, over Frames with any relation graph, links and subset collections across the selected and unselected ones.",
"Tests drop one or two fixed collections.",
["src/SIOWriter.cc","src/SIOReader.cc","src/SIOFrameData.cc","include/podio/Frame.h","python/templates/CollectionData.cc.jinja2","include/podio/detail/LinkCollectionData.h","include/podio/detail/RelationIOHelpers.h"],
[("selection of names on write and read","src/SIOWriter.cc, src/SIOFrameData.cc"),("provider lookup failing for absent collections","include/podio/Frame.h")],
["writeFrame with collections, readEntry with collections"])

p("S04","A damaged file never yields wrong data",
"Whatever happens to a file while it is written or afterwards (the process dies at any point, writes are torn, lost or reordered, the file is truncated, or bits flip after the uncompressed version header), opening and reading it either fails with an exception or yields only Frames that were written, complete and unmixed, under their own category and entry. It never crashes and never claims to have entries that were not written; it may claim fewer only if the end of the file, with the place of the table of contents, is not there any more. A file whose writer finished, and whose content reached the storage, is fully readable, also by a reader that has failed to read it for a time.",
["crash_points","fault_sequences"],"Every crash point between two bytes reaching the storage, every truncation length, torn and lost blocks, zero-filled tails, over files of several entries and categories.",
"No test ever reads a damaged file.",
["src/SIOReader.cc","src/SIOWriter.cc","src/SIOBlock.cc","src/SIOFrameData.cc","src/sioUtils.h"],
[("table of contents written last, with a marker at the very end","src/SIOWriter.cc finish, src/SIOReader.cc readFileTOCRecord"),("record headers and checked decompression","sio library")],
["openFile/readEntry/readNextEntry/getEntries and the Frames they yield"],"the SIO library is replaced by a simulated one over a simulated disk")

p("S05","A failed write is reported and what was acknowledged stays readable",
"If storage does not take all bytes (full disk, I/O error, short write), the writer reports it with an exception from the write or from finishing, and never finishes normally on a file that lacks something it accepted; the first finish decides. A Frame whose write failed (storage, memory, a relation to an object in no collection, a type the backend has no block for) does not appear among the entries of the file, Frames accepted before and after it read back whole if finishing succeeds, and finishing again, or destroying a writer in any state, is harmless.",
["fault_sequences","histories"],"Every position of a transient or permanent storage error or failing allocation in every sequence of writes and finishes, including errors in flush and at the final marker.",
"No test makes a write fail.",
["src/SIOWriter.cc","src/sioUtils.h","src/SIOBlock.cc"],
[("stream state checks","src/sioUtils.h and sio library"),("table of contents entry per record","src/SIOWriter.cc")],
["writeFrame/finish exceptions, the file read back"],"the SIO library is replaced by a simulated one over a simulated disk")

p("S06","Files carry all metadata needed to interpret them",
"A finished file gives back the writing version, the definition and (where there is one) version of every data model whose types were written, and the categories with their numbers of entries, exactly as they were when written, whichever Frames and types it holds and whatever other files are written at the same time; it has the definition of no model of which no Frame with its types was given to the writer. Each Frame read names every collection by the ID its objects carry, and relations across data models are read as they were written. A reader answers for the file opened last alone, and for models and categories a file lacks without inventing any. Links and user data need no definition.",
["histories","inputs"],"Every mixture of data models, types, categories and Frames written in any order, also by several writers alive at once.",
"Tests look at one file written from one fixed model set.",
["src/DatamodelRegistryIOHelpers.cc","src/DatamodelRegistry.cc","src/SIOWriter.cc","src/SIOReader.cc","include/podio/utilities/ReaderCommon.h"],
[("collector of definitions per written collection","src/DatamodelRegistryIOHelpers.cc")],
["currentFileVersion/getDatamodelDefinition/getAvailableDatamodels/getAvailableCategories"])

p("S07","Data of an older schema version is evolved once, before anyone sees it",
"A collection that is stored with an older schema version than that of its type is passed exactly once through the evolution function for its type and version (a user defined one takes precedence over a generated one, the last user defined one over the others) with its stored version, before it or any relation to or from it becomes visible, whichever threads ask for whichever collections in whichever order; what the function returns is what everyone sees. Every collection of a mixed Frame is treated on its own; those with the current version and subset collections are not touched. In SIO files, blocks that older versions of the data model and of podio have written in the same layout read the same, whatever their minor version, and a block with a version, or a collection with a type, that the program does not know is reported instead of being guessed at or crashing.",
["inputs","histories","schedules"],"Every content of old-version data, for every mixture of versions, functions (in place, into new buffers, none) and collections with relations in cycles, unpacked in any order from one to four threads; every version number of every block of a file.",
"The evolution tests need ROOT files, hold one object each and read it once; the baseline only compiles them.",
["src/SchemaEvolution.cc","include/podio/SchemaEvolution.h","include/podio/Frame.h","src/CollectionBufferFactory.cc","python/templates/Collection.cc.jinja2","python/templates/SIOBlock.cc.jinja2","src/SIOBlock.cc","src/SIOFrameData.cc"],
[("dispatch by type and version on unpacking","include/podio/Frame.h unpackCollection, src/SchemaEvolution.cc"),("buffers by type and version of the block","python/templates/SIOBlock.cc.jinja2, src/CollectionBufferFactory.cc"),("contents by version of the block","src/SIOBlock.cc")],
["Frame::get on buffers with an older schema version","SIOReader on files with other block versions"],"the stand-in for the SIO library can write any version number; no change to the repository is needed")

p("S08","Legacy SIO files are read event by event like current ones",
"A file that the event store of older podio versions wrote gives, through SIOLegacyReader, every event with exactly the collections, relations and parameters it was written with, in order and, if the file has a table of contents, by number, in any order, any number of times, also after having read past the end; records of other kinds are skipped and other categories have no data. A reader that opens another file answers for that file alone, and Frames handed out are independent of the reader. Of a truncated file only a prefix of the events is handed out.",
["histories","inputs","crash_points"],"Every sequence of reads, past the end and of other files included, over files with any content, with or without table of contents and records of other kinds, truncated anywhere.",
"No test in the baseline reads a legacy file; those that need SIO read one file forward.",
["src/SIOLegacyReader.cc","src/SIOFrameData.cc","src/SIOBlock.cc","include/podio/SIOLegacyReader.h"],
[("search for the next event record and table of contents","src/SIOLegacyReader.cc"),("one table of collections for all events, compressed again per entry","src/SIOLegacyReader.cc readCollectionIDTable")],
["SIOLegacyReader API and the Frames it yields"],"the SIO library is replaced by a simulated one over a simulated disk; legacy files are written by the workload")

p("S09","Generic readers and writers give what their backend has and refuse the rest",
"makeWriter picks the backend by the suffix of the file alone (.sio is always SIO; for .root the type argument or, by default, the environment picks one of the two ROOT backends) and makeReader by suffix and content; whatever they cannot serve (other suffixes or types, no file, files of different suffixes, several SIO files, files that are not there) is refused with an exception and creates no file. A Writer passes on every Frame (whole or the selected collections, 'events' by default) and every failure to the backend, whose file is complete once the Writer is finished, destroyed, or another one is assigned to it. A Reader gives every entry of every category of its files, in order and by number, whole or selected, with exactly what was written, and the same metadata as the backend; an entry that does not exist is an exception, never another entry, and disturbs nothing, and Frames are independent of the reader that made them. Patterns stand for exactly the files they match, each once per alternative and in order, whatever directories cannot be read.",
["histories","inputs","fault_sequences"],"Every sequence of opening, writing, assigning, finishing, reading in any order and past the end over several files and backends at a time, every entry number, and every failure of the storage below.",
"The baseline build has none of it: the generic classes are only built with ROOT; the interface tests write and read one file.",
["src/Reader.cc","src/Writer.cc","src/Glob.cc","include/podio/Reader.h","include/podio/Writer.h"],
[("type erased forwarding with an exception for missing entries","include/podio/Reader.h ReaderModel, include/podio/Writer.h WriterModel"),("choice of the backend","src/Reader.cc makeReader, src/Writer.cc makeWriter"),("expansion of patterns","src/Glob.cc expand_glob")],
["makeReader/makeWriter, Reader and Writer API, the Frames read back"],"the SIO library and the ROOT backends are replaced; the C library's glob looks at the simulated disk")

p("S10","Files that earlier builds wrote stay readable",
"Every SIO file that the released version (the one this repository was at when it was taken over) finished, and every legacy file of the layouts that SIOLegacyReader supports, is read by the current one with the same data model: version, categories, numbers of entries, data model definitions and versions, and every entry with exactly the collections, relations and parameters it was written with, whole or selected, in any order, by several threads at once from one Frame, and can be written again by the current version. Reader and writer never change the format together without the reader knowing the old one.",
["histories","inputs","schedules","fault_sequences"],"Every file that was ever written, in every order of reading, with every schedule of unpacking and short and interrupted reads.",
"No test in the baseline reads a file that another build wrote: whatever reader and writer do alike passes every round trip.",
["src/SIOBlock.cc","src/SIOReader.cc","src/SIOLegacyReader.cc","src/SIOFrameData.cc","include/podio/SIOBlock.h","include/podio/SIOBlockUserData.h","python/templates/SIOBlock.cc.jinja2"],
[("layout of the blocks and their versions","src/SIOBlock.cc, include/podio/SIOBlockUserData.h, include/podio/detail/LinkSIOBlock.h, python/templates/SIOBlock.cc.jinja2"),("names of records, markers","include/podio/SIOBlock.h sio_helpers")],
["SIOReader and SIOLegacyReader API and the Frames they yield"],"the SIO library is replaced by a simulated one over a simulated disk; the files were made by the unchanged code on top of it")

p("S11","podio-dump shows what a file has",
"For every readable file and every command line, podio-dump shows the version the file was written with, its data models, every category with its number of entries, and for each requested entry (a number, a list, an inclusive range or all of them, of any category) every collection once, in alphabetical order, with type, size, ID and whether it is a subset collection, and every parameter with type and number of values, or all their contents in detail; or one data model definition, unchanged. It ends with status 0 exactly if all of this was shown; an argument it does not understand, a file, category, entry or data model that is not there, a read that fails, or output that cannot be written lead to another status, and what was shown until then is right. A file that has lost its end may be shown as one without entries.",
["inputs","fault_sequences"],"Every content of a file, every combination and order of arguments, short and interrupted reads, reads that fail at any point, output that stops at any byte, and files cut at any place.",
"The tool is only started on one or two files; its output is never looked at, and the baseline does not build it.",
["tools/src/podio-dump-tool.cpp","tools/src/tabulate.h","tools/src/argparseUtils.h","include/podio/utilities/MiscHelpers.h","include/podio/Reader.h","src/Reader.cc"],
[("arguments and entry ranges","tools/src/podio-dump-tool.cpp parseArgs, parseEventRange, fullEntryList"),("tables","tools/src/tabulate.h"),("order","include/podio/utilities/MiscHelpers.h sortAlphabeticaly")],
["command line, standard output, exit status"],"the SIO library is replaced by a simulated one over a simulated disk; fmt::println, which the installed version of fmt lacks, is added")

p("G01","Generated code depends on the model alone, and survives interruption",
"The code generator leaves the same bytes for the same model, options and version whatever the hash seed, locale, clock, directory, cache or earlier content of the output, whether it runs alone or next to another one. It does not rewrite a generated file that is right already (a second run into an up-to-date directory rewrites nothing). If a run is killed, or anything it needs fails (writing, reading, the formatter) at any point, it does not report success unless everything is right, and the next undisturbed run leaves exactly the files an undisturbed first run would have. Dry runs and definitions that are rejected leave earlier output alone.",
["crash_points","fault_sequences","configurations","histories"],"Every file operation of the generator as the point of a crash, torn write or I/O error (full disk), for every model, hash seed and earlier output, followed by more runs.",
"The tests generate once, on a healthy disk, and compile the outcome.",
["python/podio_gen/generator_base.py","python/podio_gen/cpp_generator.py","python/podio_gen/julia_generator.py","python/podio_class_generator.py"],
[("write only if the content changed","python/podio_gen/generator_base.py write_file_if_changed"),("sorted includes and ordered model dictionaries","python/podio_gen/cpp_generator.py"),("the list of generated files","python/podio_gen/cpp_generator.py _write_cmake_lists_file")],
["the output directory, exit status"],"File operations, randomness and time are replaced below the Python process; no change to the repository is needed")

# not applicable
p("N01","Schema comparison flags every incompatible change of a data model",
"Comparing two versions of a data model accepts them if and only if every difference can be handled when old data are read, and names the differences that cannot.",
["inputs"],"Every pair of data model definitions and evolution rules.",
"The detection tests are fourteen fixed pairs.",
["python/podio_schema_evolution.py"],[("pairwise comparison of parsed models","python/podio_schema_evolution.py")],["exit status and messages of the comparison tool"])
p("N02","Invalid data model definitions are rejected, valid ones accepted",
"A data model definition that breaks a documented rule is rejected with a message that names the problem, before any code is generated, and every definition that obeys the rules is accepted.",
["inputs"],"Every YAML definition.",
"The 58 Python unit tests are single examples of the rules.",
["python/podio_gen/podio_config_reader.py","python/podio_gen/generator_utils.py"],[("validator","python/podio_gen/podio_config_reader.py")],["DefinitionError"])
p("N03","ROOT, RNTuple and Arrow files round-trip like SIO files",
"What holds for writing, reading, selecting, damaging and failing holds for the ROOT TTree, ROOT RNTuple and Arrow backends too.",
["inputs","histories","crash_points","fault_sequences"],"As for S01 to S06, for the other backends.",
"The baseline build does not compile these backends at all.",
["src/ROOTWriter.cc","src/ROOTReader.cc","src/RNTupleWriter.cc","src/RNTupleReader.cc","src/ArrowFrameConverter.cc"],[("branches, fields or columns per collection buffer","the listed files")],["the reader and writer classes of these backends"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
