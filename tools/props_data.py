prop("C01", "What the encoder accepts decodes back to the same packet",
     "Every packet the packet encoder accepts takes exactly the bytes the Intel PT format prescribes and decodes back to the same type, size and field values. Bits of a value for which the packet has no room (as in compressed IPs) are dropped. A packet whose type, IP compression, branch count, mode leaf, payload size or counter the format cannot express, or that does not fit into the remaining buffer, is refused with the documented error and neither the buffer nor the encoder position changes.",
     ["inputs"], "all packet types; field values over complete small domains and bit classes of large ones; all amounts of remaining room",
     "Tests encode a handful of values per packet type into a large buffer; truncation of a rarely used high bit or a write beyond a nearly full buffer needs the value or the room nobody picked.",
     ["libipt/src/pt_encoder.c", "libipt/src/pt_packet.c", "libipt/internal/include/pt_opcodes.h"],
     [("pt_enc_next", L + "pt_encoder.c"), ("pt_pkt_read_*", L + "pt_packet.c")],
     observe=["pt_enc_next", "pt_pkt_next"],
     tech="exhaustive enumeration of packets x buffer room against a format model",
     note="Every packet of the enumerated domain is encoded by the real encoder, byte-compared with an independent model of the format, and decoded back by the real decoder; values above 16 bits are covered by bit classes, not completely.")

prop("C02", "Packet decode agrees with the packet format for every byte sequence",
     "For any bytes, the packet decoder either returns the packet that the Intel PT format assigns to them, with its exact size and field values, or reports an unknown opcode, an invalid payload or the end of the trace, exactly as the format demands. It never reads outside the trace buffer, hands unknown packets to the user's callback with the right bytes, and advances by exactly the size of the packet it returned.",
     ["inputs", "configurations"], "every opcode, extension and header byte with payload classes, truncated at every length, at the end of a buffer; with and without a callback",
     "The tests decode what the encoder wrote; bytes the encoder never writes, truncated packets at the very end of the buffer, and reserved encodings are sampled a few at a time.",
     ["libipt/src/pt_packet.c", "libipt/src/pt_packet_decoder.c", "libipt/internal/include/pt_opcodes.h", "libipt/internal/include/pt_packet.h"],
     [("opcode dispatch and pt_pkt_next", L + "pt_packet_decoder.c"), ("payload readers", L + "pt_packet.c")],
     observe=["pt_pkt_next", "pt_pkt_get_offset"],
     tech="exhaustive enumeration of packet bytes and truncations against a format model",
     note="All header bytes and all truncation lengths are enumerated completely; payloads by bit classes. Guard pages on both sides of the buffer catch out-of-bounds reads of even one byte.")

prop("C03", "Synchronization visits exactly the trace's synchronization points",
     "In every decoder, synchronizing forward visits the PSBs of the trace in order, none missed and none twice, and backward in reverse order, whatever precedes or follows them: look-alike bytes, partial PSBs, damage, buffer ends, and any alignment. Where a decoder ends up, and with which status and IP, depends only on the synchronization point and not on the direction it came from, and the searches end.",
     ["inputs", "histories"], "all arrangements of PSBs, PSB+ headers, look-alikes and damage up to the depth bound, at all buffer alignments; all sync_set offsets; turns between directions",
     "Tests place one or two PSBs in a clean buffer; missed or repeated sync points need look-alike bytes at particular distances and alignments of the word-wise search.",
     ["libipt/src/pt_sync.c", "libipt/src/pt_packet_decoder.c", "libipt/src/pt_event_decoder.c", "libipt/src/pt_query_decoder.c", "libipt/src/pt_insn_decoder.c", "libipt/src/pt_block_decoder.c"],
     [("pt_sync_forward, pt_sync_backward", L + "pt_sync.c"), ("pt_*_sync_*", L + "pt_*_decoder.c")],
     observe=["pt_*_sync_forward", "pt_*_sync_backward", "pt_*_sync_set", "pt_*_get_sync_offset"],
     tech="exhaustive enumeration of trace arrangements against a reference search",
     note="Exhaustive over the token alphabet up to the stated depth. One known finding: the instruction flow decoder may stay at a PSB+ when synchronizing backward twice in a row.")

prop("C04", "IP reconstruction under every compression",
     "For every sequence of IP packets and every compression the hardware may choose for them, the decoders report exactly the addresses the hardware meant; a suppressed IP leaves the reconstruction state alone and is reported as suppressed. A PSB and an overflow forget the last IP, so that later updates are relative to zero until a full IP is seen.",
     ["inputs", "histories"], "all sequences of IP packets up to the depth bound x the address alphabet x all legal compressions",
     "Each test uses one or two packets with one compression; the state carried from packet to packet and across PSB+ is only reachable by histories.",
     ["libipt/src/pt_last_ip.c", "libipt/src/pt_event_decoder.c"],
     [("pt_last_ip_update_ip, pt_last_ip_query", L + "pt_last_ip.c"), ("IP packet handlers", L + "pt_event_decoder.c")],
     observe=["pt_evt_next", "pt_qry_indirect_branch", "pt_qry_event"],
     tech="exhaustive enumeration of sequences of IP packets with all legal compressions, against an address model",
     note="All sequences of up to 3 (4) operations that send one or two IP packets each, over 3 to 10 addresses that differ in exactly the parts the compressions distinguish, in every compression the last IP permits; other addresses are not covered.")

prop("C05", "The event stream is the processor's event stream",
     "For every packet sequence a processor can produce, the event decoder reports exactly the events the processor meant: type, order, addresses, payload, whether the event is a status update, and which IP is missing. Events that need a later packet bind to the right one, and the state in a PSB+ header is reported as status updates. No event is lost or duplicated.",
     ["histories"], "all sequences of hardware actions up to the depth bound, from synchronization onwards, with all legal packet encodings of each",
     "The tests use one hand-written packet sequence per event; binding, ordering and PSB+ in the middle of other events are only reached by combining them.",
     ["libipt/src/pt_event_decoder.c", "libipt/src/pt_event_queue.c"],
     [("pt_evt_next", L + "pt_event_decoder.c"), ("event queue", L + "pt_event_queue.c")],
     observe=["pt_evt_next"],
     tech="exhaustive enumeration of the executions of a processor model and of packet sequences; the packets are decoded by the real decoder",
     note="The model's packets come from an independent encoder; the real decoder replays every trace of the enumeration, which binds the model to the code. Bounds: action sequences of depth 3 over all actions and 4 (5) within themes; packet sequences over a packet alphabet; all arrangements of PSB+ headers.")

prop("C06", "Queries replay the branch outcomes and events in program order",
     "For every trace, the query decoder answers conditional and indirect branch queries with exactly the outcomes in the trace, in order, however the bits are grouped into TNT packets, and offers each event once, after all branches that precede it and before all that follow. A query that does not match what comes next in the trace is refused and changes nothing.",
     ["histories"], "all sequences of hardware actions up to the depth bound; at each step also the wrong queries",
     "Unit tests query fixed short packet lists; grouping of outcomes into short and long TNT, deferred TIPs and events in between multiply into histories that tests do not sample.",
     ["libipt/src/pt_query_decoder.c", "libipt/src/pt_tnt_cache.c"],
     [("pt_qry_cond_branch, pt_qry_indirect_branch, pt_qry_event", L + "pt_query_decoder.c"), ("TNT cache", L + "pt_tnt_cache.c")],
     observe=["pt_qry_cond_branch", "pt_qry_indirect_branch", "pt_qry_event"],
     tech="exhaustive enumeration of the executions of a processor model, replayed as queries, with wrong queries inserted",
     note="Every trace of the enumeration is replayed through the real query decoder, once with right queries and once with every wrong query before each right one. Which bits belong to which TNT packet varies over 6 trace configurations and runs of 4 to 140 outcomes.")

prop("C07", "The instruction flow is the executed instruction sequence",
     "Given the trace of an execution and the code it executed, the instruction flow decoder returns exactly the executed instructions, in order, with their addresses, sizes, bytes, classes, modes and transaction state, and with each event between the instructions where it happened. Nothing is invented, dropped or repeated at enable, disable, interrupt, transaction, mode, paging and VM boundaries.",
     ["programs", "histories"], "all executions of up to the depth bound over an alphabet of instructions and asynchronous events, with all legal packet encodings",
     "The end-to-end tests are a few dozen hand-written programs; the interaction of two events, of return compression with events, or of deferred packets needs combinations.",
     ["libipt/src/pt_insn_decoder.c", "libipt/src/pt_insn.c", "libipt/src/pt_ild.c", "libipt/src/pt_retstack.c"],
     [("pt_insn_next, pt_insn_event", L + "pt_insn_decoder.c")],
     tech="exhaustive enumeration of the executions of a processor model; the model's packets are decoded by the real decoder",
     observe=["pt_insn_next", "pt_insn_event"],
     note="Depth 3 over all actions and 4 (5) within themes, in 6 trace configurations, plus long prefixes around the return stack depth. The model's instruction set is a selection of each class; the breadth of x86 is C19's.")

prop("C08", "Blocks concatenate to the instruction flow",
     "For every trace that a processor can produce, and every truncation of one, with or without end-on-call and end-on-jump, the instructions in the blocks that the block decoder returns, with the events in between, are the ones the instruction flow decoder returns: the same addresses, sections, modes, speculation state, events and final status. Each block's end address, class of the last instruction, instruction count and raw bytes of a truncated last instruction agree with the code, and no block continues after a call or jump if it was asked to end there.",
     ["programs", "histories", "configurations"], "the executions of the instruction flow property and their truncations x decoder flags",
     "The two decoders are tested separately on the same few programs; disagreement shows where one of their duplicated state machines differs for a combination of events.",
     ["libipt/src/pt_block_decoder.c", "libipt/src/pt_insn_decoder.c"],
     [("pt_blk_next, pt_blk_event", L + "pt_block_decoder.c")],
     tech="exhaustive enumeration of the executions of a processor model and their truncations x decoder flags",
     observe=["pt_blk_next", "pt_blk_event", "pt_insn_next", "pt_insn_event"],
     note="As C07, and every truncation at a byte boundary of shorter executions. Loop prefixes fill and re-enter the block cache.")

prop("C09", "How the code is mapped and cached never shows in the result",
     "The decoded flow depends on the code bytes only: splitting the same memory over sections at any address, serving it through a callback, through cached sections shared with other decoders, or with a block cache filled by earlier decodes of the same memory, yields the same instructions, blocks and events as a single fresh mapping. Instructions that cross from one section into another are decoded as if they did not.",
     ["programs", "configurations", "histories"], "all split points of each program, all provision methods, all orders of earlier decodes from the program's entry points",
     "Tests decode with one mapping and a cold cache; a wrong cache entry needs an earlier decode that entered the code elsewhere or a section boundary inside an instruction.",
     ["libipt/src/pt_block_decoder.c", "libipt/src/pt_block_cache.c", "libipt/src/pt_image.c", "libipt/src/pt_msec_cache.c", "libipt/src/pt_insn_decoder.c"],
     [("block cache fill and lookup", L + "pt_block_decoder.c"), ("section cache", L + "pt_msec_cache.c")],
     observe=["pt_blk_next", "pt_insn_next"],
     tech="exhaustive enumeration of the executions of a processor model x provisions of their code x earlier decodes; the real decoders' flows are compared with the model",
     note="Executions to depth 2 over all steps and 3 over themes; one split or overlay at every byte of the code, before, between, and in the middle of decodes; one earlier decode from every byte in every mode, and two from every instruction.")

prop("C10", "Decoding from any synchronization point yields the tail of the full decode",
     "Starting to decode at any PSB+ of a trace gives, from there on, the same events, instructions and blocks as decoding from the beginning of the trace. State that the decoder kept from before the synchronization point never shows.",
     ["histories", "inputs"], "all executions up to the depth bound with a PSB+ at every position where the processor may insert one",
     "Tests synchronize once per trace; state left over from before, or not restored by the PSB+ header, shows only if both decodes are compared at every possible place.",
     ["libipt/src/pt_event_decoder.c", "libipt/src/pt_query_decoder.c", "libipt/src/pt_insn_decoder.c", "libipt/src/pt_block_decoder.c"],
     [("pt_*_start, pt_*_reset", L + "pt_*_decoder.c")],
     observe=["pt_*_sync_set", "pt_*_next"],
     tech="exhaustive enumeration of the executions of a processor model and their synchronization points, in new and used decoders",
     note="Every PSB+ of every trace of the enumeration, in four decoders, each unused and after decoding 1, 3, 6 or all items from the beginning. With tracing disabled at the PSB+, the mode events and the resumed flag of the next enable are compared between decoders only, since the trace does not repeat that information.")

prop("C11", "The estimated time follows the timing packets",
     "For every sequence of timing packets, the reported time, lost-packet counts and core:bus ratio are those that the Intel PT timing algorithm defines for the packets seen so far: exact at TSC, advanced by MTC through the CTC to TSC relation of the last TMA, and refined by calibrated CYC counts in between. For a trace that a processor's clocks can produce, the reported time is the true time up to rounding, the calibration's precision, and the resolution of the packets.",
     ["histories", "configurations"], "all sequences of timing packets up to the depth bound x payload classes including wrap-around x MTC frequency and crystal ratio configurations",
     "Unit tests feed one or two packets; wrap of the 8-bit and 16-bit counters, lost MTCs and recalibration depend on the history.",
     ["libipt/src/pt_time.c", "libipt/src/pt_event_decoder.c"],
     [("pt_time_update_*, pt_tcal_update_*", L + "pt_time.c")],
     observe=["pt_evt_next (tsc, lost_mtc, lost_cyc)", "pt_qry_time", "pt_qry_core_bus_ratio"],
     tech="explicit-state exploration of timing packet sequences, run on the real event and query decoders, against an independent formulation of the algorithm and a model of the processor's clocks",
     note="All sequences of timing packets to depth 4/5 in 28 timing configurations, and all sequences to depth 5/7 of steps of a clock model in 60 configurations; the latter knows the true time, and the estimate must be within the rounding and calibration error. Overflow is only in the former part.")

prop("C12", "After an overflow, decoding resumes where tracing resumed",
     "After an overflow packet, wherever in an execution it occurs, the decoders report one overflow event with the resume IP if tracing is enabled there, drop everything that was pending before it, and continue with exactly the flow after the resume point. No instruction, branch outcome or event from before the overflow is reported after it.",
     ["histories"], "an overflow at every position of every execution up to the depth bound, resuming enabled or disabled, and with PSB+ or timing packets before the resume IP",
     "Tests put an overflow into a few fixed positions; what is pending at that moment is a matter of history.",
     ["libipt/src/pt_event_decoder.c", "libipt/src/pt_insn_decoder.c", "libipt/src/pt_block_decoder.c", "libipt/src/pt_query_decoder.c"],
     [("overflow handling", L + "pt_event_decoder.c")],
     observe=["pt_evt_next", "pt_insn_event", "pt_blk_event"],
     tech="exhaustive enumeration of the executions of a processor model with an overflow at every position and packet boundary; the real decoders replay them",
     note="The processor model also has the errata that add or drop packets around an overflow. Cut-off traces continue with 6 tails after every packet of every execution of depth 2 to 3. One known finding: standalone events between OVF and its FUP after a postponed instruction.")

prop("C13", "Any bytes are decoded safely and to an end",
     "On any trace bytes and any code bytes, every decoder call returns: it makes progress or reports a documented error, positions never move backward or outside the buffer while decoding, and a decode loop that resynchronizes after errors ends (unless the traced code itself loops without a branch that needs trace). No call reads or writes outside of the buffers it was given, and internal errors are not among the results, as long as the decoder is synchronized again after an error.",
     ["inputs", "histories"], "all sequences of valid, misplaced and damaged packets up to the depth bound, in all decoders, over several code images",
     "Crashes, hangs and internal errors on damaged traces need packet combinations that no test author would write.",
     ["libipt/src"],
     [("all decoders", L + "pt_*_decoder.c")],
     observe=["all public decoder functions"],
     tech="exhaustive enumeration of packet sequences, trace bytes and code bytes, executed on the real decoders under sanitizers",
     note="All packet sequences up to depth 3 over an alphabet of about 80 valid, misplaced and damaged packets, depth 4 (6) over related packets, all byte pairs behind a PSB+, and all two-byte code sequences with several tails; longer arbitrary sequences are not covered.")

prop("C14", "Structures of any size are exchanged safely",
     "A user compiled against an older or newer version of the header, that is, with smaller or larger structures, gets the same answers: the library fills in at most the size the user gave, zeroes what it does not know (or, for events of the query, instruction flow and block decoders, leaves it alone), does not read beyond it, and treats missing configuration fields as zero. Sizes too small to be meaningful are refused.",
     ["configurations", "inputs"], "every structure size from zero to beyond the current one, for every public function that takes one",
     "Tests use sizeof() of the current header, plus one smaller and one bigger in places.",
     ["libipt/src/pt_config.c", "libipt/src/pt_asid.c", "libipt/src/pt_packet_decoder.c", "libipt/src/pt_event_decoder.c", "libipt/src/pt_insn_decoder.c", "libipt/src/pt_block_decoder.c"],
     [("size-limited copies", L + "pt_config.c")],
     observe=["pt_*_next", "pt_*_event", "pt_*_asid", "pt_*_alloc_decoder"],
     tech="exhaustive enumeration of structure sizes over enumerated traces, compared with the full-size run",
     note="Every size from 0 to beyond the current one for every structure the decoders exchange, over all packet sequences of the trace set, and every config size for every allocator; sizes that split a callback pointer are excluded.")

prop("C15", "The image reads as the memory its operations describe",
     "After any sequence of adding file sections and cached sections, overlapping or not, removing them by file or address space, and copying images, reading any address in any address space yields the byte of the section added last among those that match it, or the callback's answer, or no mapping. Failed operations change nothing, and everything is released with the image.",
     ["histories"], "all operation sequences up to the depth bound over overlapping placements, address spaces with wildcards, and files",
     "Unit tests check one overlap or one removal at a time; sections that were split before they are overlapped, removed or copied need sequences.",
     ["libipt/src/pt_image.c", "libipt/internal/include/pt_mapped_section.h", "libipt/src/pt_asid.c", "libipt/src/pt_msec_cache.c"],
     [("pt_image_add, pt_image_copy, pt_image_remove_*", L + "pt_image.c")],
     observe=["pt_image_add_file", "pt_image_add_cached", "pt_image_copy", "pt_image_remove_by_*", "pt_insn_next"],
     tech="exhaustive enumeration of operation sequences against a byte-map model",
     note="All operation sequences up to the depth bound over a small alphabet chosen so that sections collide; real library, real files.")

prop("C16", "The section cache maps identifiers to contents faithfully",
     "After any sequence of adding files, changing the cache limit, and reading, an identifier returned by the section cache denotes the same file range at the same address for the cache's lifetime, adding the same range again returns the same identifier, and reads return the file's bytes. The memory kept mapped for unused sections never exceeds the limit, and everything is released with the cache.",
     ["histories"], "all operation sequences up to the depth bound over overlapping ranges, addresses and limits",
     "Unit tests use mock sections and short sequences; reuse, truncation and pruning interact over histories.",
     ["libipt/src/pt_image_section_cache.c", "libipt/src/pt_section.c", "libipt/src/posix/pt_section_posix.c"],
     [("pt_iscache_add, LRU list", L + "pt_image_section_cache.c")],
     observe=["pt_iscache_add_file", "pt_iscache_read", "pt_iscache_set_limit", "pt_image_add_cached"],
     tech="exhaustive enumeration of operation sequences against an identifier table",
     note="All sequences of adds, limit changes and reads up to the depth bound over a fixed set of ranges; mappings, descriptors and allocations are accounted for by link-time interposition.")

prop("C17", "Decoders and images may share a section cache between threads",
     "Threads that concurrently add, read, resize, and decode through one shared section cache, each with its own image and decoder, get the results they would get alone, in every interleaving: no deadlock, no data race, no error, no use of freed memory, no leak, and the cache's limit is kept.",
     ["schedules"], "all interleavings at lock operations of 2 to 3 threads with up to 2 preemptions, for each combination of operations",
     "The threaded unit tests run a few workers once per test and see one schedule.",
     ["libipt/src/pt_image_section_cache.c", "libipt/src/pt_section.c", "libipt/src/posix/pt_section_posix.c", "libipt/src/pt_block_cache.c"],
     [("iscache lock, section lock, attach lock", L + "pt_section.c")],
     observe=["pt_iscache_*", "pt_image_add_cached", "pt_blk_next"],
     tech="stateless model checking: exhaustive exploration of thread interleavings of the real code under a controlled scheduler, bounded preemptions, with race detection on each",
     note="All interleavings of 2 threads with at most 2 preemptions at lock operations, unlocks and atomics, 3 threads and longer sequences with 1; operations and limits from a fixed set. Weak-memory effects are only seen as data races.")

prop("C18", "Failing allocations and files leave everything consistent",
     "If any single memory allocation, file or mapping operation fails during an API call, the call reports a documented error, nothing leaks or is used after it was freed, and the objects involved remain usable: repeating the call without the fault gives the result it would have given.",
     ["fault_sequences"], "a fault at every allocation, file and mapping operation of each scenario, one at a time and in pairs",
     "No test injects faults.",
     ["libipt/src/pt_image.c", "libipt/src/pt_image_section_cache.c", "libipt/src/pt_section.c", "libipt/src/posix/pt_section_posix.c", "sideband/src"],
     [("error paths", L + "pt_image.c")],
     observe=["pt_image_*", "pt_iscache_*", "pt_*_alloc_decoder"],
     tech="exhaustive fault injection into the real code: every single, double and (bounded) triple of failing environment operations in each scenario, compared with the fault-free run",
     note="Seven fixed scenarios of 60-100 fault points; triples are complete in the thorough tier and within a window of eight operations in quick. Faults: malloc, calloc, realloc, strdup, mmap, open, fopen, fdopen, stat, fstat, fread, fseek, ftell, mtx_init.")

prop("C19", "Instruction lengths and classes follow the x86 encoding",
     "For any bytes in any mode, the decoded length and class of an instruction are those of the x86 instruction encoding, for every combination of prefixes, opcode map, ModRM, SIB and immediate; an instruction that is cut off is an error and no byte beyond those given is looked at. The result does not depend on the bytes that follow the instruction.",
     ["inputs"], "all opcodes of all maps x ModRM x SIB x prefix combinations x modes x truncations",
     "The tests list a few hundred hand-picked instructions.",
     ["libipt/src/pt_ild.c", "libipt/internal/include/pti-modrm.h", "libipt/internal/include/pti-imm.h", "libipt/src/pt_insn.c"],
     [("pt_ild_decode", L + "pt_ild.c")],
     observe=["pt_insn_next"],
     tech="exhaustive enumeration of instruction encodings x modes x truncations, decoded by the real decoder, against an independent model of the encoding",
     note="Complete over opcode maps x ModRM x 32 prefix sets x modes, all VEX/EVEX/REX2 payload classes, and all sequences of up to 5 prefixes; displacement and immediate values are classes. The model was compared with LLVM's disassembler on 67M encodings. Undefined opcodes: only that the bytes behind the instruction do not matter.")

prop("C20", "Perf event records are read as they were written",
     "Every perf event record of a supported type, with any subset of sample fields, is read back with the same values that were written, and reading consumes exactly the record; its time is converted to TSC exactly as the conversion parameters define. Records that are truncated or claim a wrong size are refused, and nothing is read outside of the given range.",
     ["inputs", "configurations"], "all supported record types x all subsets of sample fields x sizes and truncations",
     "The round-trip test uses one sample configuration and no damage.",
     ["pevent/src/pevent.c"],
     [("pev_read, pev_write", "pevent/src/pevent.c")],
     observe=["pev_read", "pev_write"],
     tech="exhaustive enumeration of records, sample subsets, sizes, truncations and configurations, executed on the real code, against an independent model of the format",
     note="Complete over record types x sample subsets x string lengths up to 17 (40 in thorough) and around the 64 KiB limit x every room, truncation and claimed size; field values are distinct patterns. Time conversion on edge values, where the exact result fits 64 bits, with shifts up to 32.")

prop("C21", "Sideband attributes code to the process that ran it",
     "For every sequence of perf sideband records, applied in time order as trace decode proceeds, the image used at each point of the trace is the one that the records up to that time describe for the process that was running: its mappings and those inherited, switched at the right event. Records of other processors or threads do not interfere, and records are applied exactly once, in order.",
     ["histories"], "all sequences of sideband records up to the depth bound, interleaved with trace events",
     "The sideband tests are a few scripted sessions with mostly one process.",
     ["sideband/src/pt_sb_session.c", "sideband/src/pt_sb_pevent.c", "sideband/src/pt_sb_context.c"],
     [("pt_sb_event, decoder priorities", "sideband/src/pt_sb_session.c"), ("record application", "sideband/src/pt_sb_pevent.c")],
     observe=["pt_sb_event", "pt_sb_get_context_by_pid"],
     tech="exhaustive enumeration of sideband histories (sequences of records on two channels interleaved with trace events) executed on the real session, against an independent model of processes and memory",
     note="All sequences of records and events up to the length bound over an alphabet of records (start, fork, exec, exit, switch, mmap, lost, aux) of one or two channels; the image in use is compared byte by byte after each event. The order of records with the same time on different channels is not compared.")

prop("C22", "The dump tool shows what the decoders decode",
     "For every trace, the packet dump lists exactly the packets and offsets the packet decoder reports, with their payload as the format defines it, and its computed last IP and time agree with the event decoder's, for every option combination. Damage in the trace is reported by a message with its offset and the dump goes on at the next synchronization point, never with a crash. Sideband records appear exactly once, in time order, in front of the first packet that is not earlier. Command lines that can't be processed fail with a message.",
     ["inputs", "configurations"], "all packet sequences up to the depth bound x options, all damage of base traces, all short command lines",
     "The end-to-end tests compare a few option sets on clean traces.",
     ["ptdump/src/ptdump.c"],
     [("dump loop and resynchronization", "ptdump/src/ptdump.c"), ("last IP and time tracking", "ptdump/src/ptdump.c"), ("option parsing", "ptdump/src/ptdump.c")],
     observe=["ptdump output and exit status"],
     tech="exhaustive enumeration of packet sequences, damage, option sets, command lines and sideband histories, executed on the real tool, against an independent formatter and state model and the event decoder",
     note="All first two bytes x payload fills, all sequences of last-IP and timing symbols up to the depth bound x option sets; event times from the real event decoder. Blanks between columns are not compared, nor is the order of simultaneous sideband records.")

prop("C23", "Processor identification selects exactly the documented workarounds",
     "For every processor vendor, family, model and stepping, the library enables exactly the errata workarounds documented for it and no others, and CPU strings parse to the identification they denote and are otherwise refused. Address filter configuration answers exactly the filter and stop ranges that the configuration registers describe, for every address and register combination.",
     ["configurations"], "all families, models and steppings; all filter configurations x addresses around their bounds",
     "Tests check a few models and filter ranges.",
     ["libipt/src/pt_config.c", "libipt/src/pt_cpu.c", "libipt/internal/include/pt_config.h"],
     [("pt_cpu_errata", L + "pt_config.c"), ("pt_filter_addr_check", L + "pt_config.c")],
     observe=["pt_cpu_errata", "pt_cpu_parse", "pt_filter_addr_check"],
     tech="exhaustive enumeration of processor identifications, CPU strings and filter configurations, executed on the real code, against independent tables",
     note="Complete over the modelled vendors x families x models x steppings and all strings up to the length bound over a 12 character alphabet; addresses around all range bounds.")

prop("C24", "Errata workarounds restore what the processor did",
     "For every execution on a processor that has one of the errata the library knows, with the wrong, spurious or missing packets this erratum puts in the trace, the decoders with the workaround enabled reconstruct the instructions and events the processor went through. On a processor without errata, enabling the workarounds does not change what is decoded, where a correct trace can't be mistaken for one that shows the erratum.",
     ["histories", "configurations"], "all sequences of processor steps up to the depth bound, erratum by erratum, with one or all workarounds, with and without address filters",
     "The tests show each workaround one or two packet sequences.",
     ["libipt/src/pt_event_decoder.c", "libipt/src/pt_insn_decoder.c", "libipt/src/pt_block_decoder.c", "libipt/src/pt_config.c"],
     [("BDM70 and SKD022 workarounds", L + "pt_event_decoder.c"), ("BDM64 and SKL014 workarounds", L + "pt_insn_decoder.c"), ("BDM64 and SKL014 workarounds", L + "pt_block_decoder.c"), ("pt_filter_addr_check", L + "pt_config.c")],
     observe=["pt_evt_next", "pt_qry_*", "pt_insn_next", "pt_blk_next", "pt_insn_event", "pt_blk_event"],
     tech="exhaustive enumeration of the executions of a processor model with errata BDM70, BDM64, SKD022, SKL014 (and none), decoded by the four real decoders, against the instructions and events of the model",
     note="Complete over step sequences up to the depth bound. SKD010, APL11 and APL12 are part of C12, SKD007 and SKZ84 of C02. Not compared: an asynchronous disable at a VM entry, which looks like SKD022. One known finding.")

prop("C25", "The segment finder prints the segment that contains the offset",
     "For every trace and every offset into it, ptseg prints the range from the last synchronization point at or before the offset (or the begin of the trace) to the first one after it (or the end of the trace), together with the offset relative to that range. Offsets beyond the trace and command lines that can't be processed fail with a message and a non-zero status.",
     ["inputs"], "all sequences of PSBs, parts of PSBs, look-alikes and other packets up to the depth bound x all offsets; all pairs of arguments from a list",
     "ptseg does not have tests.",
     ["ptseg/src/ptseg.c", "libipt/src/pt_sync.c", "libipt/src/pt_packet_decoder.c"],
     [("ptseg_pkt_find_seg, ptseg_split_ptarg", "ptseg/src/ptseg.c")],
     observe=["ptseg output and exit status"],
     tech="exhaustive enumeration of traces (sequences of tokens), offsets and command lines, executed on the real tool, against an independent list of synchronization points",
     note="Complete over token sequences up to the depth bound x all offsets.")

prop("C26", "The test compiler emits exactly what the directives describe",
     "For every test file whose directives are well-formed, pttc writes the trace that consists of exactly the packets the directives describe, in order, with label arguments replaced by the labels' addresses; it writes sideband files with exactly the perf records and raw values the sideband directives describe; and it writes the expected-output file with labels replaced and masked as documented, for lines of up to 1000 characters. A directive that is unknown or malformed is refused with a message and a non-zero status.",
     ["inputs"], "all directives x all values (all values with one or all low bits set, for wide fields); all sample types x all perf events; all label forms x addresses",
     "pttc does not have tests of its own; it makes the input of others, so its errors would hide theirs.",
     ["pttc/src/parse.c", "pttc/src/yasm.c", "pttc/src/pttc.c", "pttc/src/util.c", "doc/howto_pttc.md"],
     [("p_process_pt, p_process_sb, p_gen_expfile", "pttc/src/parse.c"), ("yasm_pd_parse, parse_yasm_labels", "pttc/src/yasm.c")],
     observe=["generated trace, sideband and expected-output files", "exit status and messages"],
     tech="exhaustive enumeration of directives and their arguments, compiled by the real tool, against an independent encoder of packets and perf records",
     note="Complete over all directives, all values of fields up to 9 bits and all C-states; wider fields take every power of two and its predecessor. Needs yasm. What happens to values that the packet truncates (TSC above 56 bits, EVD type above 31, 32-bit PTW) is not part of the property.")
