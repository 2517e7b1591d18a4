CHECKS = {}
ENVWRAP = ["malloc", "calloc", "realloc", "strdup", "free", "mmap", "munmap", "open", "close", "fopen",
           "fdopen", "fclose", "stat", "fstat"]


def check(pid, **kw):
    CHECKS[pid] = kw


check("C02", level="exploration",
      parts=[dict(name="decode", src=["c02.cpp"], variant="fast")],
      rule="a case is (header bytes, payload class, truncation length, errata/callback environment); "
           "distinct = distinct decoded (type, size, fields) tuples produced by the format model",
      explanation="every opcode/ext/ext2 byte x payload classes x truncation, compared with an "
                  "independent table of the packet format; buffer ends at a guard page")

check("C01", level="exploration",
      parts=[dict(name="encode", src=["c01.cpp"], variant="fast")],
      rule="a case is (packet type, field values, room in the buffer, start offset); distinct = distinct "
           "byte strings produced by the format model for encodable packets",
      explanation="field domains: complete ranges up to 16 bits, walking-bit classes above; every packet "
                  "also with 0, size-1, size and size+3 bytes of room, ending at a guard page")

check("C03", level="exploration",
      parts=[dict(name="sync", src=["c03.cpp"], variant="fast", cxxflags=["-O2"])],
      rule="a case is one sync operation on a trace assembled from PSB, PSB+, look-alike and damage tokens; "
           "distinct = distinct (sync point set, length, alignment)",
      explanation="all token sequences up to the depth bound, at all 8 buffer alignments and against guard "
                  "pages on either side; forward and backward sweeps, turn-arounds, and sync_set to every offset")

check("C15", level="exploration",
      parts=[dict(name="image", src=["c15.cpp"], variant="fast", wrap=ENVWRAP)],
      rule="a case is a sequence of image operations followed by reads of every address in every address "
           "space; distinct = distinct observed memory contents",
      explanation="all operation sequences up to the stated depths; the oracle is a byte map with address-space "
                  "wildcards; reads go through the image and through an instruction flow decoder")

check("C16", level="exploration",
      parts=[dict(name="iscache", src=["c16.cpp"], variant="fast", wrap=ENVWRAP)],
      rule="a case is a sequence of section cache operations followed by reads of every identifier; distinct = "
           "distinct (identifier contents, limit, bytes left mapped)",
      explanation="all operation sequences up to the stated depths, freeing the cache first and last; mappings, "
                  "descriptors and allocations are accounted for by link-time interposition")

check("C07", level="exploration",
      parts=[dict(name="flow", src=["c07.cpp"], variant="fast", cxxflags=["-O2"])],
      rule="a case is one execution of the processor model (instructions, events, faults, packet encoding "
           "variant); distinct = distinct instruction flows",
      explanation="every sequence of processor steps up to the depth bound, each in 6 trace configurations and "
                  "starting with tracing enabled or disabled; the packets and the expected flow both come from "
                  "the processor model, the flow from the decoder under test")
check("C08", level="exploration",
      parts=[dict(name="flow", src=["c08.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 250, "thorough": 6000}),
             dict(name="cut", src=["c08.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 250, "thorough": 6000})],
      rule="a case is one execution of the processor model with one combination of end-on-call and end-on-jump, or "
           "one truncation of such a trace; distinct = distinct flows",
      explanation="every sequence of processor steps up to the depth bound; the blocks are expanded with the code "
                  "and compared with the machine's flow, and for truncated traces with the instruction decoder's")
check("C05", level="exploration",
      parts=[dict(name=n, src=["c05.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 250, "thorough": 5000}) for n in ("model", "packets", "header")],
      rule="a case is one trace: an execution of the processor model, a sequence of packets, or an arrangement of a "
           "PSB+ header; distinct = distinct expected event streams",
      explanation="the expected events come from the processor model and, for single packets, from a reference of "
                  "the binding rules; pending events are completed at the end of each sequence")
check("C06", level="exploration",
      parts=[dict(name="query", src=["c06.cpp"], variant="fast", cxxflags=["-O2"])],
      rule="a case is one execution of the processor model, replayed once with right queries only and once with "
           "all wrong queries before each right one; distinct = distinct sequences of answers",
      explanation="the branch outcomes, targets and events, and their order, come from the processor model; refused "
                  "queries must not write results, change the time, or change any later answer")
check("C10", level="exploration",
      parts=[dict(name="tail", src=["c10.cpp"], variant="fast", cxxflags=["-O2"])],
      rule="a case is one execution of the processor model with at least two PSB+, one of them, and an amount of "
           "decoding done before synchronizing there; distinct = distinct expected tails",
      explanation="decodes from each PSB+ in the event, query, instruction and block decoder with a decoder that is "
                  "new or has already decoded part or all of the trace; the tail comes from the processor model")
check("C12", level="exploration",
      parts=[dict(name=n, src=["c12.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 270, "thorough": 5000}) for n in ("flow", "cut", "skd010")],
      rule="a case is one execution of the processor model with an overflow and one set of errata workarounds, or one "
           "packet boundary of an execution at which the rest of the trace is replaced by an overflow and one of five "
           "tails; distinct = distinct flows",
      explanation="the flow before and after the overflow comes from the processor model, in all four decoders; the "
                  "model also has the errata that put spurious packets after, or drop the FUP after, an overflow")
check("C24", level="exploration",
      parts=[dict(name=n, src=["c24.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 250, "thorough": 5000}) for n in ("hit", "miss")],
      rule="a case is one execution of the processor model, with or without an erratum, decoded by all four decoders "
           "with the workaround; distinct = distinct instruction flows",
      explanation="the packets, wrong where the erratum says so, and the flow both come from the processor model; "
                  "without the erratum, all workarounds are enabled and must not show")
check("C04", level="exploration",
      parts=[dict(name="ip", src=["c04.cpp"], variant="fast", cxxflags=["-O2"])],
      rule="a case is a sequence of operations that send IP packets, with one legal compression for each of their "
           "addresses; distinct = distinct sequences of reported events and addresses",
      explanation="all sequences up to the depth bounds over up to 10 addresses, differing in exactly the parts that "
                  "the compressions distinguish, in every compression the last IP permits; event and query decoder")
check("C11", level="exploration",
      parts=[dict(name=n, src=["c11.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 300, "thorough": 6000}) for n in ("ref", "clock")],
      rule="a case is a sequence of timing packets in one timing configuration, with an event after each of them; "
           "distinct = distinct sequences of times",
      explanation="the time and loss counts at every event, and the query decoder's time and core:bus ratio, are "
                  "compared with an independent formulation of the algorithm")
check("C09", level="exploration",
      parts=[dict(name=n, src=["c09.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 300, "thorough": 6000}) for n in ("provide", "history")],
      rule="a case is one execution of the processor model, one way of providing its code, or one or two earlier decodes "
           "from a byte of its code, and one decoder with one set of flags; distinct = distinct flows",
      explanation="the flow comes from the processor model and must not change with the provision of the code, or with "
                  "what earlier decodes left in the block cache")

check("C14", level="exploration",
      parts=[dict(name="structures", src=["c14.cpp"], variant="fast", cxxflags=["-O2"], wrap=ENVWRAP),
             dict(name="config", src=["c14.cpp"], variant="fast", cxxflags=["-O2"], wrap=ENVWRAP)],
      rule="a case is one decode of a trace with one size for one kind of structure, or one configuration size with "
           "one decoder and trace; distinct = distinct (structure kind, contents)",
      explanation="every size from zero to beyond the known size for every structure that carries one, on traces from "
                  "the processor model; user buffers end at a guard page and are compared with the full-size answer")

check("C13", level="exploration",
      parts=[dict(name="packets", src=["c13.cpp"], variant="asan", cxxflags=["-O1"]),
             dict(name="deep", src=["c13.cpp"], variant="fast", cxxflags=["-O2"]),
             dict(name="bytes", src=["c13.cpp"], variant="fast", cxxflags=["-O2"]),
             dict(name="code", src=["c13.cpp"], variant="asan", cxxflags=["-O1"])],
      rule="a case is one byte sequence decoded by one decoder, with resynchronization after errors; distinct = "
           "distinct (calls needed, final position)",
      explanation="all sequences of packets, well-formed and not, up to the depth bound, arbitrary bytes behind a PSB+, "
                  "and arbitrary code bytes; with address and undefined-behaviour sanitizers and guard pages")

MTXWRAP = ["mtx_init", "mtx_destroy", "mtx_lock", "mtx_trylock", "mtx_unlock", "pt_bcache_add", "pt_bcache_lookup",
           "pt_bcache_alloc", "pt_bcache_free"]
TSANWRAP = ["__tsan_atomic%d_%s" % (n, o) for n in (8, 16, 32, 64)
            for o in ("load", "store", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong")]
check("C17", level="exploration",
      parts=[dict(name=n, src=["c17.cpp"], variant="fast", cxxflags=["-O2"], wrap=ENVWRAP + MTXWRAP,
                  deadline={"quick": 150, "thorough": 4000}) for n in ("pairs", "sequences", "triples")] +
            [dict(name="race", src=["c17.cpp"], variant="tsan", cxxflags=["-O2", "-DRACE"], harness_flags=[],
                  wrap=ENVWRAP + MTXWRAP[:5] + MTXWRAP[7:] + TSANWRAP, deadline={"quick": 200, "thorough": 4000})],
      rule="a case is one schedule of one program of two or three threads; distinct = distinct sets of schedules",
      explanation="all schedules with up to the stated number of preemptions at lock operations and block cache accesses, "
                  "by depth-first search with replay over the real library under a controlled scheduler; results are "
                  "compared with those of each operation alone")
check("C19", level="exploration",
      parts=[dict(name=n, src=["c19.cpp"], variant="fast", cxxflags=["-O2"],
                  deadline={"quick": 200, "thorough": 5000}) for n in ("maps", "vex", "prefix", "bind")],
      rule="a case is one decode of a byte sequence in one mode with a given number of bytes mapped; distinct = "
           "distinct opcodes with their prefixes",
      explanation="opcodes of all maps x ModRM x SIB x prefixes x modes x truncations; the oracle is an "
                  "independent implementation of the encoding rules; undefined opcodes are only "
                  "checked for not depending on the bytes behind the instruction")
check("C18", level="exploration",
      parts=[dict(name="library", src=["c18.cpp"], variant="asan", cxxflags=["-O1"],
                  wrap=ENVWRAP + ["fread", "fseek", "ftell", "mtx_init", "mtx_destroy"]),
             dict(name="sideband", src=["c18sb.cpp"], variant="asan", cxxflags=["-O1"], libs=["sb", "ipt"],
                  wrap=ENVWRAP + ["fread", "fseek", "ftell", "mtx_init", "mtx_destroy"])],
      rule="a case is one run of a scenario with one or two failing operations; distinct = distinct (failing "
           "operation, number of operations of the run)",
      explanation="every allocation, file, stdio, mapping and mutex-initialization operation of each scenario fails, alone "
                  "and together with every later one; calls that report an error are repeated")

check("C20", level="exploration",
      parts=[dict(name="records", src=["c20.cpp"], variant="asan", cxxflags=["-O1"], libs=["sb", "ipt"]),
             dict(name="config", src=["c20.cpp"], variant="asan", cxxflags=["-O1"], libs=["sb", "ipt"])],
      rule="a case is one record written into or read from a buffer of one size, with one claimed size and one "
           "configuration, or one time conversion; distinct = distinct records",
      explanation="all record types x all subsets of sample fields x string lengths x every room, truncation and claimed "
                  "size; the buffers are heap blocks of exactly the given size under AddressSanitizer; an independent "
                  "table of the record format is the oracle")

check("C21", level="exploration",
      parts=[dict(name=n, src=["c21.cpp"], variant="fast", cxxflags=["-O2"], libs=["sb", "ipt"],
                  deadline={"quick": 150, "thorough": 3000}) for n in ("histories", "processes", "location", "maps", "channels")] +
            [dict(name="memory", src=["c21.cpp"], variant="asan", cxxflags=["-O1", "-DLEAKS"], libs=["sb", "ipt"], wrap=ENVWRAP,
                  deadline={"quick": 150, "thorough": 3000})],
      rule="a case is one sequence of sideband records and trace events; distinct = distinct (number of context switches, "
           "errors, processes)",
      explanation="all sequences of records of two channels and trace events up to the length bound; an independent model "
                  "of processes, their memory and pending switches says what is mapped after each event")

check("C22", level="exploration",
      parts=[dict(name=n, src=["c22.cpp", "c22dump.c"], variant="asan" if n in ("damage", "args") else "fast",
                  cxxflags=["-O1"], harness_flags=["-O1"], libs=["sb", "ipt"], wrap=["fopen"], deadline={"quick": 150, "thorough": 3000})
             for n in ("packets", "lastip", "times", "events", "damage", "args", "sideband")],
      rule="a case is one run of ptdump on one trace with one command line; distinct = distinct outputs",
      explanation="every run's output is compared with the packets the packet decoder reports, formatted by an independent "
                  "formatter, and with models of the last IP, of time and of the sideband queue; times also with the event "
                  "decoder's")

check("C23", level="exploration",
      parts=[dict(name=n, src=["c23.cpp"], variant=v, cxxflags=["-O2"])
             for n, v in (("errata", "fast"), ("parse", "asan"), ("filter", "fast"))],
      rule="a case is one processor identification, one string or one (filter configuration, address); distinct = "
           "distinct outcomes",
      explanation="all vendors x families x models x steppings against a table of the documented processors; all strings "
                  "up to the length bound over an alphabet of digits, prefixes, separators and signs; all combinations of four "
                  "filter configurations and ranges x the addresses around all bounds")

check("C25", level="exploration",
      parts=[dict(name=n, src=["c25.cpp", "c25dump.c"], variant=v, cxxflags=["-O2"], harness_flags=["-O1"],
                  libs=["ipt"], wrap=["fopen"]) for n, v in (("segments", "fast"), ("args", "asan"))],
      rule="a case is one run of ptseg on one trace with one offset, or with one command line; distinct = distinct outputs",
      explanation="all sequences of tokens (PSBs, parts of PSBs, look-alikes, other packets) up to the length bound x all "
                  "offsets, against an independent list of the sync points; all pairs of arguments from a list")

check("C26", level="exploration",
      parts=[dict(name=n, src=["c26.cpp"], variant=v, cxxflags=["-O1"], harness_flags=["-O1"],
                  libs=["pttc", "sb", "ipt"])
             for n, v in (("directives", "fast"), ("malformed", "asan"), ("exp", "asan"), ("sections", "fast"),
                          ("sideband", "asan"))],
      rule="a case is one file compiled by pttc; distinct = distinct traces, messages and expected-output files",
      explanation="every directive with all (or, for wide fields, all bit-class) arguments, against an independent encoder; "
                  "malformed directives in three contexts; all label forms in .exp files against an independent formatter")
