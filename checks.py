"""What each property's check runs: (command, build configuration) pairs, and how it is described."""

CONFIGS = {
    "plain": {"as_gib": 14},
    "checkptr": {"build": ["-gcflags=all=-d=checkptr"], "as_gib": 14},
    "asan": {"build": ["-asan"], "env": {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1"}},
    "race": {"build": ["-race"], "env": {"GORACE": "halt_on_error=0 history_size=4 log_path={race}"}},
    "386": {"build_env": {"GOARCH": "386", "CGO_ENABLED": "0"}},
    "mips64": {"build_env": {"GOARCH": "mips64", "GOMIPS64": "softfloat", "CGO_ENABLED": "0"}, "emulator": True, "shards": 8,
               "thin": {"quick": 12, "thorough": 6}, "args": ["-workers", "1", "-hang", "500"]},
    "gc": {"env": {"GODEBUG": "clobberfree=1", "GOGC": "20"}, "as_gib": 14},
}

BYTES = "cases are made by the value generators and structural fault injectors over the type universe; distinct by type and bytes (the encoded value or the input); every case runs the library and the independent model"
A_MODEL = "the reference model in harness/ref states the SSZ rules correctly; it shares no code with the library"
A_TYPES = "supported types: those the default factory accepts, non-recursive, exported fields, list limits whose byte size is below 2^63"


def chk(runs, title, rule=BYTES, level="exploration", **kw):
    d = {"runs": runs, "technique": title, "rule": rule, "level": level, "assumptions": [A_MODEL, A_TYPES]}
    d.update(kw)
    return d


CORE = [("core", "plain")]
CHECKS = {
    "C01": chk(CORE, boost=4, title="differential monitor of every encoding against an independent SSZ model"),
    "C02": chk(CORE, boost=4, title="round-trip monitor with model-side equality and validity"),
    "C03": chk(CORE, quick_passes=2, title="acceptance monitor: library decoder against the model's canonical decoder on hostile inputs"),
    "C04": chk(CORE, quick_passes=2, title="agreement monitor of dry check and decode on the same inputs"),
    "C06": chk([("core", "plain"), ("core", "checkptr"), ("core", "asan")], boost=4, title="memory snapshots and canaries around decodes, plus address sanitizer and checkptr builds"),
    "C07": chk(CORE, boost=4, title="differential monitor of hash tree roots against an independent SSZ model"),
    "C10": chk(CORE, boost=4, title="conservation monitor: computed size, returned count, bytes received"),
    "C11": chk(CORE, "monitor of reported lengths against big-integer bounds and attained extremes"),
    "C12": chk(CORE, boost=4, title="differential monitor of signing roots, with last-field and other-field changes"),
    "C16": chk(CORE, "memory snapshots around random sequences of (also failing) reading operations"),
    "C22": chk(CORE, boost=2, title="boundary monitor: lists filled to and over their limits at every position"),
    "C25": chk([("core", "plain"), ("core", "checkptr"), ("core", "gc"), ("core", "asan")], boost=4, title="address-range disjointness, clobbered garbage under forced collections, checkptr and address sanitizer builds"),
    "C05": chk(CORE, quick_passes=2, title="crash, step-count and allocation monitor on hostile inputs with hostile claimed lengths"),
    "C13": chk(CORE, "monitor of fuzz-mode decoding: success, bounds, consumed bytes, validity of the result"),
    "C14": chk(CORE, boost=2, title="twin-type monitor: squashed, embedded and omitting types against the types written out"),
    "C15": chk(CORE, boost=4, title="twin-type monitor: pointerized types against the plain ones"),
    "C17": chk([("core", "race"), ("core", "plain")], quick_passes=1, title="race detector and result comparison under concurrent use of shared definitions",
               rule="workloads are made by the value generators; distinct by type and bytes; goroutines run shuffled operation lists over shared definitions and values and compare every result with the sequential one"),
    "C18": chk(CORE, boost=4, title="source monitor: same bytes delivered in many ways, position of the source afterwards"),
    "C19": chk(CORE, "source fault injection at every byte", level="fault_enumeration"),
    "C20": chk(CORE, boost=4, title="writer fault injection at every byte", level="fault_enumeration"),
    "C21": chk(CORE, boost=4, title="history monitor: used destinations against fresh ones"),
    "C26": chk(CORE, boost=2, title="token-level monitor of printed values against the model"),
    "C29": chk(CORE, boost=4, title="monitor comparing operations on values and on pointers"),
    "C30": chk(CORE, boost=4, title="differential monitor with replaced hash functions"),
    "C31": chk(CORE, quick_passes=2, title="history monitor: long-used definitions against fresh ones"),
    "C32": chk(CORE, boost=4, title="monitor inside a replaced part: spans, indices and counts of its reader, over- and under-consumption",
               rule="one type inside a type is replaced by a probe that takes its bytes in random steps; distinct by type, replaced type and encoding"),
    "C08": chk(CORE, "differential monitor of direct merkleization calls, with counting and recording hash functions, against full padded trees",
               rule="leaf counts and limits enumerated around powers of two and random; distinct by counts, limits and leaves"),
    "C09": chk(CORE, "proof monitor: every extracted branch is verified against the root by an independent verifier",
               rule="leaf counts, limits and indices enumerated around powers of two and random; distinct by counts, limits, indices and leaves"),
    "C23": chk(CORE, quick_passes=2, title="differential monitor of the bitfield helpers against a plain list of bits",
               rule="bit patterns enumerated for short bitfields and random for long ones; distinct by operation and contents"),
    "C24": chk(CORE, quick_passes=2, title="verdict monitor over random types, and custom factories that replace parts of a type",
               rule="types are composed at random from supported and unsupported parts; distinct by type (and by value for replaced parts)"),
    "C27": chk(CORE, "boundary monitor of encodings near and past 4 GiB, on sparse memory",
               rule="values whose parts' sizes are chosen around 2^32; distinct by type and sizes"),
    "C28": chk([("core", "386"), ("core", "mips64")], "the other properties' model-based monitors on a 32-bit build and on an emulated big-endian 64-bit machine",
               one_pass=True, rule=BYTES + "; on the emulated machine, one case in twelve of each monitor"),
}
