"""Which simulations decide which property."""
RT = ["thread scheduler (fibers, one switch point per memory access and synchronisation operation)", "pthread mutexes and once flags", "operator new / delete (tracked, can fail)"]
CORE = ["all of podio's core library (src/*.cc of the core target) and its headers"]
MODEL = ["generated code of the data model sim/model/dm.yaml, generated by the repository's generator and templates at check time"]
SIO = ["SIO backend (src/SIO*.cc, sioUtils.h and headers) and the generated SIO blocks", "std::fstream and std::filebuf of libstdc++, zlib"]
DISK = ["libsio: a stand-in with the same interface and record layout (sim/sio)", "the C library's file calls below std::filebuf: a simulated disk"]
MEM = ["in-memory FrameData backend handing over copies of the write buffers"]

PROPS = {
    "C01": dict(
        runs=[("frame_put", "frame_put", 25000, 600000)],
        rule="Each execution draws a Frame (with or without raw data), two to six threads and up to 16 calls (put by value or pointer, get typed, untyped and with a wrong type, getName, available names, ID table) on one to four names, and a schedule. Non-trivial: three calls or more.",
        real=CORE + MODEL, stubs=RT + MEM),
    "C02": dict(
        runs=[("frame_get", "frame_get", 25000, 600000)],
        rule="Each execution draws an event of up to five collections of any kind with any relations, cycles included, some of them missing from the data, one to five threads that get overlapping sets of them and check at once all they got, and a schedule. Non-trivial: two threads or more and more than one element.",
        real=CORE + MODEL, stubs=RT + MEM),
    "C03": dict(
        runs=[("params", "params", 30000, 800000)],
        rule="Each execution draws two to five threads and their calls on one parameter set with colliding keys of four value types, and a schedule. Non-trivial: three calls or more.",
        real=CORE, stubs=RT),
    "C04": dict(
        runs=[("idtable", "idtable", 40000, 1000000)],
        rule="Each execution draws an ID table (fresh, moved or rebuilt from stored names and IDs), two to five threads adding and looking up up to 14 names of all sorts, failing allocations inside add, and a schedule. Non-trivial: three calls or more.",
        real=CORE, stubs=RT),
    "C05": dict(
        runs=[("prepare", "prepare", 20000, 600000)],
        rule="Each execution draws an event of up to five collections of any kind with any relations, some of them to objects that no collection has yet, one to four threads that prepare and get collections, allocations that fail while preparing, then a second round after the missing objects were added, and a schedule. The write buffers are compared with the contents after every successful call. Non-trivial: more than one element.",
        real=CORE + MODEL, stubs=RT + MEM),
    "C06": dict(
        runs=[("registry", "registry", 40000, 1000000)],
        rule="Each execution draws a sequence of registrations (buffer functions, generated and user evolution functions for several types and versions, data models, names repeated) and one to five threads looking things up, and a schedule. Non-trivial: more than two registrations.",
        real=CORE, stubs=RT + ["buffer creation and evolution functions that mark what they made"]),

    "O01": dict(
        runs=[("objects", "lifetime", 30000, 1500000), ("handles", "handles_mt", 20000, 2000000), ("handles", "shared_mt", 20000, 2000000)],
        rule="Each execution draws a history of up to some 80 operations that create, copy, assign, add, clear, move, clone, relate, store, read back and destroy handles, collections of all kinds, interface handles, links and Frames; or two to five threads copying, converting and dropping handles of shared objects, and a schedule. Every allocation and every access to freed memory is checked. Non-trivial: more than one owner.",
        real=CORE + MODEL, stubs=RT + MEM),
    "O02": dict(
        runs=[("objects", "content", 30000, 1500000), ("userdata", "userdata", 20000, 1500000)],
        rule="Each execution draws a history of collection operations (with misuse that has to be rejected) on all kinds of collections, links and user data and compares every collection with a plain list after them. Non-trivial: more than a few operations.",
        real=CORE + MODEL, stubs=RT + MEM),
    "O03": dict(
        runs=[("objects", "clones", 30000, 1500000)],
        rule="Each execution draws a history biased to copying, converting, cloning and then changing objects in every ownership state, with storing and reading back in between. Non-trivial: at least one clone.",
        real=CORE + MODEL, stubs=RT + MEM),
    "O04": dict(
        runs=[("objects", "relations", 30000, 1500000)],
        rule="Each execution draws a history biased to setting and adding relations and vector members, in objects in every ownership state, with storing and reading back in between. Non-trivial: at least one relation.",
        real=CORE + MODEL, stubs=RT + MEM),
    "O05": dict(
        runs=[("objects", "links", 30000, 1500000), ("handles", "shared_mt", 8000, 500000)],
        rule="Each execution draws a history biased to links, link collections (owning and subset) and navigators, compared with a plain list of links, with storing and reading back in between; or two to four threads that read common collections and navigate common and own navigators, and a schedule. Non-trivial: at least one link.",
        real=CORE + MODEL, stubs=RT + MEM),
    "O06": dict(
        runs=[("objects", "allocfail", 36000, 2000000), ("objects", "allocfail_big", 8000, 600000), ("userdata", "userdata_alloc", 20000, 1500000), ("params", "params_alloc", 20000, 1000000),
              ("frame_put", "frame_put_alloc", 8000, 500000), ("frame_get", "frame_get_alloc", 8000, 500000), ("frame_get", "frame_get_lost", 60, 200)],
        rule="Each execution draws a history of operations on collections of all kinds, handles, links, user data and Frames, in half of which one drawn allocation fails; the operation then has to throw bad_alloc, everything is compared with the model that did not (or did) do it, and nothing may leak; or several threads that put, get, list and unpack in one Frame, some calls of which have a failing allocation, and a schedule. Non-trivial: more than a few operations.",
        real=CORE + MODEL, stubs=RT + MEM),

    "O07": dict(
        runs=[("print", "print", 20000, 1200000)],
        rule="Each execution draws an event of up to five collections of any kind with any relations, cycles included, held by the user, by a Frame or read back with some collections missing, further objects of a second data model, one to four threads that print collections, objects, related objects, interface handles, links and parameters to streams of drawn format, or convert them to JSON, and a schedule; all texts are compared, and taken apart or compared with the JSON expected afterwards. Non-trivial: more than one element.",
        real=CORE + MODEL + ["generated code of a second data model (sim/model/cyc.yaml)"], stubs=RT + MEM),

    "S01": dict(
        runs=[("sio", "sio_roundtrip", 12000, 900000), ("sio", "sio_threads", 6000, 400000)],
        rule="Each execution draws up to three Frames of up to five collections of any kind with any relations, some read from raw data, one collection in eight big enough to fill the stream's buffers, writes them under up to three categories, reads them in any order and possibly writes and reads them once more, on a disk with short and interrupted reads and writes; or two to four threads that write own and common Frames to files of their own and read them, and a schedule. Non-trivial: a Frame was written (two of them with threads).",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM),
    "S02": dict(
        runs=[("sio", "sio_entries", 12000, 1200000)],
        rule="Each execution draws one or two files of up to seven small Frames in up to three categories and up to 27 steps of one to three readers: next, entry by number, past the end, unknown category, another file, a file that is not there; Frames handed out are looked at later, also after their reader is gone. Non-trivial: more than two entries read.",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM),
    "S03": dict(
        runs=[("sio", "sio_select", 15000, 1200000)],
        rule="Each execution draws Frames with any relation graph, a subset of collections for writing each (sometimes with a name that is not there), a subset for reading, and possibly writes what was read in part again. All are non-trivial.",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM),
    "S04": dict(
        runs=[("sio", "sio_damage", 20000, 2000000)],
        rule="Each execution writes up to three Frames and damages the file: the process ends at any byte of any write, truncation, lost sectors, a tail of zeros, flipped bits, failing reads; then opens it and reads everything it claims to have and some it does not, in any order and through Frame and FrameData, and again after an exception. All are non-trivial.",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM),
    "S05": dict(
        runs=[("sio", "sio_writefail", 20000, 2000000), ("sio", "sio_large", 5000, 500000)],
        rule="Each execution draws up to four writes (some of them impossible), a way to finish, and faults: a disk that is full after a drawn number of bytes, for good or for some calls, failing writes, a failing close, a failing open, failing allocations, short and interrupted writes. What was accepted is read back if finishing succeeded; or files of several GB, up to and beyond 2^31, 2^32 and 2^40 bytes, most of which only exists in the offsets. All but those that could not open the file are non-trivial.",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM),
    "S06": dict(
        runs=[("sio_meta", "sio_meta", 14000, 1200000)],
        rule="Each execution draws one to three writers alive at once and up to eight writes of Frames that mix collections of three data models (one with relations into another, one with a version), links, subset collections and user data, whole or in part, some failing, some files started again; then one or two readers open the files in turn, some changed to come from another version of podio, and check every answer about the file and the contents. Non-trivial: more than one entry read.",
        real=CORE + ["generated code of three data models (sim/model), generated by the repository's generator and templates at check time, one of them on top of another"] + SIO, stubs=RT + DISK),
    "S07": dict(
        runs=[("evolve", "evolve", 25000, 1500000), ("sio", "sio_version", 10000, 900000), ("registry", "registry", 10000, 300000)],
        rule="Each execution draws which user defined evolution functions there are, an event of up to five collections of any kind with any relations, each stored with one of three schema versions in an encoding of values and relations that only the function for this version undoes, one to four threads that get overlapping sets of collections, and a schedule; or SIO files whose blocks have older, newer and impossible versions; or registrations and lookups of functions as for C06. Non-trivial: at least one collection of an older version.",
        real=CORE + MODEL + SIO, stubs=RT + DISK + MEM + ["evolution functions that undo the encoding of their version"]),
    "S08": dict(
        runs=[("sio", "sio_legacy", 15000, 1200000)],
        rule="Each execution writes one or two files as the event store of older versions did (one table of collections for all events, records of other kinds in between, with and without a table of contents, with the block versions of then), of up to four events of up to three collections of any kind with any relations, and draws up to 22 steps of one or two legacy readers: next, entry by number, past the end, unknown category, another file; Frames are looked at at once or later; one file in three is also read after it was truncated. Non-trivial: more than one entry read.",
        real=CORE + MODEL + SIO + ["SIOLegacyReader"], stubs=RT + DISK + ["the writer of legacy files, which podio does not have any more, is part of the workload"]),
    "S09": dict(
        runs=[("sio_generic", "sio_generic", 20000, 1500000), ("sio_generic", "generic_fail", 10000, 900000)],
        rule="Each execution opens up to ten writers (by any name and type, through the factory or around a plain writer) that write Frames in turns, whole or in part, are assigned to each other, moved, finished or destroyed; then up to 24 steps of readers of one file, several files or a pattern: next, entry by number (beyond 2^32 too), past the end, unknown categories and collections, metadata, directories that cannot be read; or one writer on a disk that fails or fills up or with failing allocations, whose file is then read. Non-trivial: more than one entry read, or a writer that could be made.",
        real=CORE + MODEL + SIO + ["generic Reader and Writer, makeReader and makeWriter (src/Reader.cc, src/Writer.cc and headers), pattern expansion (src/Glob.cc) over the C library's glob"],
        stubs=RT + DISK + MEM + ["the ROOT backends and TFile: stand-ins that keep SIO records (sim/stub)", "directories below the C library's glob"]),
    "S10": dict(
        runs=[("sio", "sio_golden", 30000, 1500000)],
        rule="Each execution draws one of about 260 files that the unchanged code wrote (sim/golden/sio.bin: current and legacy layout, up to three Frames of any kinds of collections, selections, other data models) with the description of what it holds, reads it in drawn order, whole or selected, unpacks with one or two threads and a drawn schedule, on a disk with short and interrupted reads, and possibly writes everything again. Non-trivial: anything was read.",
        real=CORE + MODEL + SIO + ["SIOLegacyReader"], stubs=RT + DISK + ["the files were written by the unchanged code on top of the stand-in for libsio"]),
    "S11": dict(
        runs=[("sio_dump", "dump", 20000, 1500000)],
        rule="Each execution writes a file of up to four Frames of up to three collections of any kind in up to three categories (one in 50 of them large in one respect) and starts podio-dump one to three times with drawn arguments in drawn order (category, entries in all notations, details, size statistics, data model, help, version, and wrong ones), on a disk with short, interrupted and failing reads, on a file that was cut anywhere, or with too little space for the output; all words of the output are compared with what the file was written from. Non-trivial: something about a file was shown.",
        real=CORE + MODEL + SIO + ["tools/src/podio-dump-tool.cpp with its main function", "generic Reader, makeReader, pattern expansion"],
        stubs=RT + DISK + MEM + ["standard output and error, exit", "the ROOT backends (not used)", "fmt::println on top of the installed version of fmt"]),
    "G01": dict(
        python=True, runs=[],
        rule="Each history draws one of about thirty models (the three of the simulation, and drawn ones with components, relations, interfaces, links, extra code, text that is not ASCII and older schema versions; C++ or Julia, any backends, with and without clang-format), what is in the output directory before (nothing, all of this or another model, files that are cut, changed, garbage), up to three runs of this or a similar model that are dry, get a spoilt definition, are ended at a drawn file operation, have failing, short or interrupted file operations, a disk that is full after a drawn number of bytes or a failing formatter, alone or in turns with another generator that shares its cache, and two undisturbed runs; the hash seed, locale, clock, heap layout and random numbers differ. Non-trivial: anything happened before the undisturbed runs.",
        real=["podio_class_generator.py, podio_gen and all templates of the repository, run by the Python interpreter with jinja2 and yaml"],
        stubs=["every file operation below the output directory, cache, definitions and templates goes through sim/gen/shim.c, on a scratch directory", "clang-format is a stand-in (sim/gen/fakeformat.c)", "hash seed, clock, random numbers, and the order in which two generators run are drawn"],
        assumptions=["a process that ends loses what it has not written, but the system stays up: nothing written is lost later"]),
}
