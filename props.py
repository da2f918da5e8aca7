ALLSTUBS = ["C allocator (seam over the host allocator, deterministic content and failures)"]
DISK = "disk and stdio devices (in-memory files behind real glibc FILE streams)"
PROPS = {
 "C01": dict(
    scenarios=[dict(name="map", quick=35000, thorough=1500000)],
    rule="Seeded histories of map operations over small colliding key universes, capacities, hash seeds (clock, rand), each run fault-free and then with allocation failures placed inside its operations.",
    real=["map/map.c", "harbol_common_includes.h"], stubs=ALLSTUBS + ["time()", "rand()/srand()"],
    probes={"map": ["entry removed", "operation failed by an injected fault"]},
    assumptions=["keys and values are at least one byte long"]),
}
PROPS["C02"] = dict(scenarios=[dict(name="array", quick=30000, thorough=1000000)], rule="Seeded histories over two arrays of one element size.", real=["array/array.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"array": ["", "operation failed by an injected fault"]})
PROPS["C03"] = dict(scenarios=[dict(name="deque", quick=30000, thorough=1000000)], rule="Seeded histories over a deque.", real=["deque/deque.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"deque": ["drained to empty", "operation failed by an injected fault"]})
PROPS["C04"] = dict(scenarios=[dict(name="string", quick=30000, thorough=1000000)], rule="Seeded histories over three strings (so that strings are mixed and given to themselves).", real=["str/str.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"string": ["characters removed", "operation failed by an injected fault"]})
PROPS["C05"] = dict(scenarios=[dict(name="bytebuf", quick=25000, thorough=1000000)], rule="Seeded histories over two byte buffers and a simulated disk.", real=["bytebuffer/bytebuffer.c", "array/array.c", "harbol_common_includes.h", "glibc stdio buffering"], stubs=ALLSTUBS + [DISK], probes={"bytebuf": ["write refused by the device", "load failed by an injected fault", "operation failed by an injected fault"]})
PROPS["C06"] = dict(scenarios=[dict(name="tree", quick=50000, thorough=800000)], rule="Seeded histories over a tree.", real=["tree/tree.c", "array/array.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"tree": ["subtree removed", "operation failed by an injected fault"]})
PROPS["C07"] = dict(scenarios=[dict(name="tuple", quick=30000, thorough=1000000)], rule="Seeded histories over three tuples and two variants.", real=["tuple/tuple.c", "variant/variant.c", "array/array.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"tuple": ["tuple with irregular field sizes", "operation failed by an injected fault"]})
_PURE = "is a pure function of its arguments: no concurrency, clock, I/O, memory failure or second party for a simulator to schedule or fault, so deterministic simulation would only be random input testing."
NOT_APPLICABLE = {
 "C20": "Number lexing " + _PURE + " (Containment and allocation failure of the same lexers are decided under C18.)",
 "C22": "The generator's sequence " + _PURE + " (Independence of two generators used by different threads is decided under C17.)",
 "C23": "Each helper " + _PURE,
}
PROPS["C08"] = dict(scenarios=[dict(name="objpool", quick=90000, thorough=1000000)], rule="Seeded interleavings of up to four clients over one object pool.", real=["allocators/objpool/objpool.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"objpool": ["pool exhausted", "creation failed by an injected fault", "pool over more than 4 GB"]}, assumptions=["clients only release blocks they hold, apart from null and out-of-pool pointers"])
PROPS["C09"] = dict(scenarios=[dict(name="arena", quick=120000, thorough=1000000)], rule="Seeded interleavings of up to four clients over one region and one double-ended stack.", real=["allocators/region/region.c", "allocators/bistack/bistack.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"arena": ["request refused", "creation or resize failed by an injected fault", "buffer of more than 4 GB"]})
PROPS["C19"] = dict(scenarios=[dict(name="mempool", quick=90000, thorough=1000000)], rule="Seeded interleavings of up to four clients over one memory pool.", real=["allocators/mempool/mempool.c", "allocators/region/region.c", "harbol_common_includes.h"], stubs=ALLSTUBS, probes={"mempool": ["request refused", "creation failed by an injected fault", "already released piece released again", "hole in use on both sides refilled", "two released neighbours served as one", "pool over more than 4 GB"]}, assumptions=["pointers passed in are live pieces, already released pieces whose memory was not handed out again, or outside the pool's used part"])
PROPS["C10"] = dict(scenarios=[dict(name="ingest", quick=80000, thorough=800000)], rule="Seeded histories of files appearing, vanishing, becoming unreadable or unseekable, and of every way of reading one into memory, over a disk that splits reads and fails.", real=["harbol_common_includes.h (file readers)", "str/str.c", "lex/lex.c (UTF-8 decoding)", "glibc stdio buffering"], stubs=ALLSTUBS + [DISK], probes={"ingest": ["well-formed file decoded to code points", "complete content delivered in spite of a fault", "file changed while being read"]}, assumptions=["an empty file may be reported as a failure"])
PROPS["C18"] = dict(scenarios=[dict(name="lex", quick=30000, thorough=1000000)], rule="Seeded histories of skipping, lexing and UTF-8 coding calls over undamaged, cut, bit-flipped and spliced text, collecting into one buffer, each repeated under allocation failures.", real=["lex/lex.c", "str/str.c"], stubs=ALLSTUBS, probes={"lex": ["undamaged text compared with the reference", "call hit by an allocation failure", "value of a token compared"]})
CFGSRC = ["cfg/cfg.c", "lex/lex.c", "math/math_parser.c", "map/map.c", "variant/variant.c", "str/str.c", "msg_sys/msg_sys.c", "glibc stdio buffering"]
PROPS["C11"] = dict(scenarios=[dict(name="cfgio", quick=16000, thorough=500000)], rule="Seeded histories of building, saving, loading, rendering and parsing configurations over a disk that fails, fills up and loses the process in mid-write.", real=CFGSRC, stubs=ALLSTUBS + [DISK, "time()", "rand()/srand()"], probes={"cfgio": ["save verified by loading it", "save hit by a fault", "process died while saving"]}, assumptions=["keys and text values hold none of the format's own control markers (<math, <enum>, <include>)", "keys hold no zero byte"])
PROPS["C13"] = dict(scenarios=[dict(name="cfgset", quick=20000, thorough=800000)], rule="Seeded histories of typed reads, writes, conversions and null-settings by path over generated nested configurations, each call also under allocation failures.", real=["cfg/cfg.c", "map/map.c", "variant/variant.c", "str/str.c", "math/math_parser.c"], stubs=ALLSTUBS + ["time()", "rand()/srand()"], probes={"cfgset": ["path resolved", "value stored", "value converted", "call hit by an allocation failure", "text of a setting worked out"]}, assumptions=["what a separator at the very end of a path means is left open"])
PROPS["C12"] = dict(scenarios=[dict(name="cfgparse", quick=7500, thorough=800000)], rule="Seeded documents written in varying styles, cut, flipped, spliced, deeply nested and including each other, parsed from files and text over a disk that fails and an allocator that runs out.", real=CFGSRC, stubs=ALLSTUBS + [DISK, "time()", "rand()/srand()"], probes={"cfgparse": ["undamaged document compared with its meaning", "damaged document parsed", "parse stopped by a fault", "extremely nested document", "torn document compared with what was complete", "document with a setting that cannot be read compared with what it means", "included file failing, the rest compared"]}, assumptions=["an included file that cannot be read, or that is being parsed already, is left out"])
PROPS["C14"] = dict(scenarios=[dict(name="plugin", quick=110000, thorough=1500000)], rule="Seeded histories of loading, looking up, touching, replacing, removing, reloading and clearing up to three plugins whose libraries, file times and memory the simulator decides.", real=["plugins/plugins.c", "harbol_common_includes.h"], stubs=ALLSTUBS + ["dynamic loader (dlopen, dlsym, dlclose)", "stat()"], probes={"plugin": ["load refused", "reload refused", "changed file noticed"]}, assumptions=["a plugin is loaded into a cleared structure", "whether clearing a plugin that has no library still calls its unload callback, and whether a reload counts as having seen a change, is left open"])
PROPS["C15"] = dict(scenarios=[dict(name="plugdir", quick=90000, thorough=1500000)], rule="Seeded directory trees in every listing order, some with links (back up the tree, sideways, to files) and some over a thousand levels deep, scanned for varying extensions while opening, listing and examining entries fails.", real=["plugins/plugins.c", "plugins/tinydir.h", "harbol_common_includes.h"], stubs=ALLSTUBS + ["directories (opendir, readdir, closedir, stat, getcwd)"], probes={"plugdir": ["scan refused", "entries hidden by a failure", "listing cut short by a failure", "deep chain of directories", "file reached through a link"]}, assumptions=["directories whose name starts with a dot may be skipped", "a listing that fails in the middle ends that directory's scan", "files reached through a link to a directory may be visited under that path, too", "a directory whose status cannot be read may be entered once more through a link"])
PROPS["C16"] = dict(scenarios=[dict(name="msg", quick=25000, thorough=800000)], rule="Seeded histories of building diagnostics from text and files, adding labels and notes, emitting them and writing one-line messages, over a disk and output streams that fail and an allocator that runs out.", real=["msg_span/msg_span.c", "msg_sys/msg_sys.c", "lex/lex.c (line ends, UTF-8)", "str/str.c", "array/array.c", "glibc stdio buffering"], stubs=ALLSTUBS + [DISK], probes={"msg": ["construction refused", "label or note refused", "emission hit by a fault", "diagnostic with several labels"]}, assumptions=["source text holds no zero byte", "an empty source may be reported as a failure", "where a label names lines the source does not have, or ends before the column it starts at, only the lines and messages shown are fixed, not the highlighting"])
PROPS["C17"] = dict(opt="-O0", scenarios=[dict(name="threads", quick=6000, thorough=300000)], rule="Seeded programs of up to four threads over objects of every module, run alone in a fresh process, then one after another in one process, then interleaved with seeded preemption at basic blocks, some threads' allocations failing.", real=["every library source: cfg, lex, math, map, array, deque, str, tree, tuple, variant, bytebuffer, mtwister, msg_span, msg_sys, allocators"], stubs=ALLSTUBS + [DISK, "thread scheduler (real threads, one runnable at a time, switched at planned basic blocks)", "time()", "rand()/srand()"], probes={"threads": ["step of a thread hit by an allocation failure", "more than twenty preemptions in one run"]}, assumptions=["threads share no object; the C library is thread-safe"])

PROPS["C24"] = dict(scenarios=[dict(name="bufs", quick=20000, thorough=1000000)], rule="Seeded histories over three groups of one to six parallel buffers, a text, and copies, each run fault-free and then with allocation failures placed inside its operations.", real=["harbol_common_includes.h"], stubs=ALLSTUBS, probes={"bufs": ["operation failed by an injected fault"]}, assumptions=["buffers of at least one element and elements of at least one byte", "two buffers of the same group are distinct"])
PROPS["C21"] = dict(scenarios=[dict(name="math", quick=120000, thorough=6000000)], rule="Seeded expressions, well-formed, deep, long, cut, flipped and spliced, evaluated with resolvers and functions played by the simulator: stateful, re-entrant, refusing, inconsistent.", real=["math/math_parser.c", "math/math_parser.h"], stubs=["variable resolver and the functions it hands out (one simulated party: its answers, state and re-entrance are decided by the plan)"], probes={"math": ["well-formed text consulted names in order", "value compared", "damaged text evaluated", "function applied"]}, assumptions=["unary plus only over values that are not negative, names of at most 60 characters and at most 200 levels where the value is compared", "the value of an expression with an unknown name is open"])
PROPS["C25"] = dict(scenarios=[dict(name="links", quick=150000, thorough=6000000)], rule="Seeded histories of several clients moving one set of nodes between up to four intrusive lists (single, double, triple links; with and without a tail) while others stand in the middle of a walk.", real=["harbol_common_includes.h"], stubs=["the clients (their order of steps is decided by the plan)"], probes={}, assumptions=["a node is in at most one list at a time", "adding after the last node leaves the tail to the client, as its signature has none"])
