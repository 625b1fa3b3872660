"""What run.py runs for each property, and what MANIFEST.json says about it."""

RACE_PART = dict(cmd="wire", race=True, shards=4, procs=4)
TRUST = "Trusted: the Go toolchain, and the independent model/oracle code in /verif/harness. Exploration: holds on every execution observed, no claim beyond."


def P(technique, rule, note, parts=None, thorough=(), level="exploration", cmd="wire", scale=6, tscale=1, assumptions=()):
    return dict(
        technique=technique, rule=rule, note=note + " " + TRUST, level=level, assumptions=list(assumptions),
        parts=parts or [dict(cmd=cmd, scale=scale, tscale=tscale)], thorough_parts=list(thorough))


def i386(cmd="wire", scale=1, tscale=1):
    """The same workload in a 32-bit process, where int is narrower than what the wire can express."""
    return dict(cmd=cmd, name="i386", goarch="386", scale=scale, tscale=tscale)


QUICK_386 = {"C02", "C03", "C06", "C22"}


PROPS = {
    "C01": P("runtime monitoring: round-trip oracle over generated Go types and values, 3 protocols, exact-consumption sentinel",
             "cases are (Go type, value) pairs from a registry of 75 declared types plus reflect.StructOf types; distinct by type and canonical value; trivial values (rendering of four characters or fewer) are not counted",
             "Every generated value must come back canonically equal and leave the stream exactly behind it."),
    "C02": P("runtime monitoring: differential oracle against an independent binary-protocol codec plus golden vectors",
             "cases are thrift values, messages and Go values; distinct by the rendering of all their bits",
             "Bytes written must equal, and bytes read must decode to, what an independent reference codec says; the reference itself is pinned by hand-written golden vectors."),
    "C03": P("runtime monitoring: differential oracle against an independent compact-protocol codec (all legal encodings) plus golden vectors",
             "cases are thrift values, messages, Go values, all field-id transitions of an edge set, all container headers of edge sizes; distinct by the rendering of all their bits",
             "As C02 for the compact protocol; the reader is fed every legal encoding (long field headers, long list headers, boolean element code 1)."),
    "C04": P("runtime monitoring: header oracle over all writer/reader pairings, exhaustive version words and protocol bytes",
             "cases are message headers, version words, protocol/version bytes and protocol pairings; distinct by header bytes and pairing",
             "All 65536 version words and all 256x256 first-byte pairs are tried; names and ids are sampled."),
    "C05": P("runtime monitoring: metamorphic oracle (inject unknown fields, permute, drop) and skip-position monitor",
             "cases are (Go type, value, injected fields, order); distinct by the rendering of the message",
             "Decoding with noise must equal decoding without; skips must end at the reference encoding's end."),
    "C06": P("runtime monitoring: mismatch oracle over every (position, wire type) of generated messages and malformed-header enumeration",
             "cases are (Go type, position, wire type) replacements and malformed headers; distinct by type, position and bytes",
             "Every planted mismatch must be a SemanticError naming the wire type; every malformed header an error."),
    "C07": P("runtime monitoring: hostile-input stress with allocation, stack and read-after-end monitors",
             "cases are byte strings (random, mutated, inflated, deeply nested up to millions of levels) times a destination; distinct by destination and input",
             "Every input must return; allocation stays below constant + factor x input; process death is a violation.",
             assumptions=["the allocation bound is 64 times the measured need of correct code plus a constant"]),
    "C08": P("runtime monitoring with fault injection: every cut and read-failure position",
             "cases are (encoding, cut or failure position, delivery); distinct by encoding and delivery; all cuts up to 48 bytes, sampled beyond",
             "Every proper prefix must give io.EOF/io.ErrUnexpectedEOF, every injected stream error must surface.", level="fault_enumeration"),
    "C09": P("runtime monitoring: stream monitor (counts reads made after a value was completely delivered) under random fragmentation",
             "cases are (stream of items, fragmentation); distinct by stream and read plan",
             "Same values under every fragmentation, and no read once a value is complete."),
    "C10": P("runtime monitoring with fault injection on the underlying writer: every failure position, short writes, flush failures",
             "cases are (output, sink shape, fault position and kind); distinct by those",
             "Nil from Flush implies exactly the reference bytes arrived and the sink was flushed after them; any fault must surface.", level="fault_enumeration"),
    "C11": P("runtime monitoring: history oracle (arbitrary prefix of operations, Reset, compare with a fresh instance)",
             "cases are (history before Reset, stream shapes, value after); distinct by those",
             "After Reset the outcome must equal the reference, the old stream must be untouched."),
    "C12": P("runtime monitoring: online automaton over Writer calls that rebuilds the written value",
             "cases are marshaled (type, value) pairs; distinct by the rebuilt value",
             "The automaton rejects any ill-nested, miscounted or mistyped call; the rebuilt value must equal the model."),
    "C13": P("runtime monitoring: online automaton over Reader calls driven by an announced value tree",
             "cases are (type or skip, announced tree incl. unknown fields and mismatches); distinct by those",
             "The automaton rejects any call the announced position does not allow, and any position but the end on success."),
    "C14": P("runtime monitoring with fault injection: an error at the k-th Reader/Writer call for every k",
             "cases are (operation, value, failing call); distinct by those",
             "The injected error must be returned through errors.Is and no call may follow it.", level="fault_enumeration"),
    "C15": P("runtime monitoring: memory-region overlap monitor, snapshot comparison, stale-destination differential oracle",
             "cases are (type, value, destination state); distinct by those",
             "Regions reachable from results, inputs and buffers must be disjoint; snapshots must stay unchanged."),
    "C16": P("race detector over concurrent first and later uses, results compared with sequential ones",
             "cases are batches of operations on fresh struct types, registry types and mixed valid/invalid types run by up to 37 goroutines; distinct by batch",
             "No race report, no blocked goroutine, every concurrent result equals the sequential one.",
             parts=[dict(RACE_PART, scale=4, tscale=2)],
             assumptions=["the Go race detector reports every race of an execution within its history window"]),
    "C17": P("runtime monitoring: independent tag-grammar oracle over generated struct types, all Go kinds at all positions",
             "cases are struct types with generated tags, (kind, position) placements, nil arguments; distinct by type",
             "Accept/reject and ids/options must agree with an independent reading of the tag grammar."),
    "C18": P("runtime monitoring: cycle and depth stress over all recursive shapes, stack-limit watchdog",
             "cases are deep values (to 1500 levels) and random cyclic graphs over 16 recursive types, 29 hand-written cycles and infinite types; distinct by value or cycle",
             "Deep values round-trip; every cyclic or infinite value gives an error; process death is a violation.", scale=1),
    "C19": P("runtime monitoring: generator of documents with their trees, checked against a reference lexer and grammar; independence and aliasing monitors",
             "cases are generated documents in several layouts, deep and long documents; distinct by tree or text; documents of three tokens or fewer are not counted",
             "The parser must return exactly the tree the generator spelled; the generator itself is checked against a BNF grammar by an Earley recogniser.", cmd="idl", scale=5),
    "C20": P("runtime monitoring: verdict and position oracle (reference lexer plus Earley recogniser) over mutated documents",
             "cases are documents after token or character mutations, every cut, every token at every place, token and character soup; distinct ill-formed documents are counted",
             "Accept or refuse, and the first reported position, must agree with the reference; definitions before the fault must be unchanged.", cmd="idl", scale=2),
    "C21": P("runtime monitoring: hostile-input stress with allocation and stack monitors; race detector over concurrent parses",
             "cases are byte strings up to megabytes (random, soup, repeated, nested) and batches of concurrent parses; distinct by input or batch",
             "Every input must return the same tree and error twice within the allocation bound; concurrent results equal sequential ones without a race report.",
             parts=[dict(cmd="idl", scale=2, tscale=1), dict(cmd="idl", name="race", race=True, shards=4, procs=4, scale=2, tscale=1)]),
    "C25": P("runtime monitoring: metamorphic oracle (the rest of the document parsed on its own) and documents with faults planted at known places",
             "cases are documents with faults in stems of all definitions, token and character mutations, bad strings, hostile bytes and definitions nested too deeply; distinct by the text from a bad definition on",
             "Extents of bad definitions must be the planted ones, or begin and end where the reference says; what follows them must be what the rest of the document means alone.", cmd="idl", scale=3),
    "C22": P("runtime monitoring: model-based oracle (byte string + offset, encoding/binary, reference header encodings) over random call histories",
             "cases are call histories on fragmented, failing streams and header values; distinct by history or header",
             "Return values, errors, positions, prefixes and reads must equal the model's.", scale=1),
    "C23": P("runtime monitoring: model-based oracle (list of steps) over random call histories and every breakpoint",
             "cases are call histories with breakpoints, resets and replays, and recorded Marshal calls; distinct by history",
             "Results, errors and Steps must equal those of a list of steps; memory passed in or handed out is spoiled between the calls.", cmd="memo", scale=4),
    "C26": P("runtime monitoring: controlled interleaving of Readers and Writers, each compared with its own reference",
             "cases are sets of 2-6 Readers and Writers with their call sequences, interleaved at every call and every operation of their streams as a random schedule says; distinct by tasks and schedule; cases with no more switches than tasks are not counted",
             "Every stream must receive the reference bytes and every Reader return the reference values, also when looked at again after the others have ended; damaged input must give what it gives alone.", scale=2),
    "C27": P("runtime monitoring: model-based oracle (an interpreter of messages over reflect values) over sequences of messages into one variable",
             "cases are (type, previous contents, messages) with partial, repeated and unknown fields, known and repeated map keys, and shared pointers; distinct by message and previous contents",
             "After every message the variable must hold exactly what the model holds, ignored and unexported fields included, and pointers that were there must still be there.", scale=2),
    "C28": P("runtime monitoring: position automaton over Writer and Reader calls as oracle for what errors say, with fault injection at every kind of call",
             "cases are (type, value, failing call), refused messages (mismatch, nesting limit) and cut or damaged streams; distinct by direction, failing call, Thrift type and Go type",
             "Every error must name the Go type and the Thrift type at the place where the calls stopped, the direction and the failing call, and carry the cause."),
    "C29": P("runtime monitoring: retention monitor (weak pointers to everything passed in and handed out) and heap and goroutine counts over long runs",
             "cases are batches of good and failing calls on Readers and Writers that live on, runs of thousands of rounds with ever new contents, large messages, and parsed documents; distinct by case",
             "What was dropped must be collected while Readers and Writers live on; heaps before and after long runs must agree within 1 allocation in 20 rounds.",
             parts=[dict(cmd="wire", scale=2, tscale=1), dict(cmd="idl", name="idl", scale=1, tscale=1)]),
    "C24": P("runtime monitoring with fault injection: mutation oracle, TestProtocol run on conforming and broken protocols",
             "cases are conforming protocol variants, systematic faults of the reader times four protocols, and every single failing call; distinct by protocol and fault",
             "Every conforming variant must pass, every broken one must fail.",
             parts=[dict(cmd="suite", test=True, scale=1)], level="fault_enumeration"),
}

for _id in ("C02", "C03"):
    PROPS[_id]["parts"][0]["as_gb"] = 24  # strings of 4 GiB, and copies

for _id, _p in PROPS.items():
    if _id not in ("C16", "C24"):
        _p["parts" if _id in QUICK_386 else "thorough_parts"].append(i386(_p["parts"][0]["cmd"]))
