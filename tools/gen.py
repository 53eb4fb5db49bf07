#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed once the harness knows its id (grep over mc/src/props)."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, obs=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs or ["bytes the stub writes to the Connection", "calls the Target receives", "states and errors the session API returns"],
                     hook_needed=None)))

NOT = "No unit test of the repository drives this: the 33 tests cover number codecs, the response writer's RLE and doc examples."

prop("C01", "No client byte sequence crashes, hangs or corrupts the stub",
 "Whatever bytes a client sends, in whatever order and for whatever set of supported features, the stub never panics, aborts, overflows, reads or writes outside its packet buffer, or loops forever; every byte leads to a reply, a state change or a returned error. A packet that cannot be understood is answered or ends the session with an error, and the buffer lengths handed to target callbacks always lie within the packet buffer.",
 ["inputs", "configurations"], "all 2-byte payloads, all short raw byte strings, and all 1-2 edit mutations of a corpus of every command, over feature sets, buffer sizes and address widths",
 NOT + " Parsers for ~60 packets each have their own arithmetic on attacker-controlled numbers.",
 ["src/protocol", "src/stub"], [("unchecked indexing of the packet buffer", "src/protocol/packet.rs"), ("per-packet parsers", "src/protocol/commands/"), ("hex decoding in place", "src/protocol/common/hex.rs")])
prop("C02", "Packet reception: framing, checksum and segmentation",
 "A packet is handled exactly once if and only if it is framed as `$payload#xx` with xx the two-digit modulo-256 sum of the payload in either case, its handling does not depend on how or when the bytes arrive, and nothing of an earlier packet leaks into a later one. A packet whose checksum is wrong or unreadable causes no target call and no acknowledgement or reply and ends the session with an error, as does a byte outside of packets that is neither `+` nor an interrupt; a packet that does not fit a borrowed buffer ends the session with an error, while an owned buffer grows.",
 ["inputs", "histories"], "all 65536 checksum spellings of a packet, all byte strings of a small alphabet up to a length against an automaton, all single-byte corruptions of all packets, packet sequences over buffer sizes",
 NOT, ["src/protocol/recv_packet.rs", "src/protocol/packet.rs", "src/stub/mod.rs"],
 [("byte-wise packet state machine", "src/protocol/recv_packet.rs:RecvPacketStateMachine"), ("checksum verification", "src/protocol/packet.rs:PacketBuf::new")])
prop("C03", "Replies are well-formed and decode to exactly what was meant",
 "Every packet the stub sends is framed `$...#xx` with the correct checksum over the bytes on the wire, contains no bare `#` or `$`, escapes binary data as the protocol demands, and decodes to the same content whether or not run-length encoding is in use. With run-length encoding on, every run decodes to the original run with counts a client accepts (29..126, never `#` or `$`), for every byte value and run length.",
 ["inputs", "configurations"], "all run patterns of a small alphabet up to a length, every byte value x run length 1..400, every checksum value, every command with RLE on and off",
 "Unit tests compress a handful of strings; the rule about forbidden counts and run splits at 97/98 must hold for every run.",
 ["src/protocol/response_writer.rs"], [("run-length encoder and checksum", "src/protocol/response_writer.rs:ResponseWriter")])
prop("C04", "Acknowledgement discipline and flushing",
 "Until no-ack mode is agreed every correctly received packet is acknowledged by exactly one `+` before its reply, and afterwards none is; no-ack mode starts right after the packet that asks for it and only for targets that allow it. Each packet gets exactly one reply (resume commands get theirs when the target stops, and `R` is defined to have none), replies come in request order, and everything written is flushed before the stub waits for the client.",
 ["histories", "configurations"], "all sequences of commands up to a depth over no-ack support, plus every command of the corpus and every placement of client acks",
 NOT, ["src/stub/core_impl.rs", "src/stub/state_machine.rs", "src/protocol/response_writer.rs"], [("ack before dispatch", "src/stub/core_impl.rs:handle_packet"), ("flush", "src/protocol/response_writer.rs:flush")])
prop("C05", "The session state machine moves exactly as documented",
 "A session is Idle after start; it becomes Running exactly when a resume command was given to the target, returns to Idle exactly when a stop reason is reported (sending one stop reply for it), and becomes Disconnected exactly when the client detaches or kills, or the target exits, terminates or is killed, with the matching reason. A disconnected session can be returned to Idle and then serves further commands with nothing pending from before, and commands that arrive while the target runs are answered without disturbing the pending stop.",
 ["histories"], "all sequences of client and target events up to a depth, against a reference automaton",
 NOT, ["src/stub/state_machine.rs", "src/stub/core_impl.rs", "src/stub/stub_error.rs"], [("typestates and pump", "src/stub/state_machine.rs"), ("finish_exec", "src/stub/core_impl/resume.rs")])
prop("C06", "Ctrl-C interrupts are never lost, duplicated or misattributed",
 "An interrupt byte received between packets, while the target is stopped or running, is surfaced exactly once, and an interrupt byte inside of a packet is just data. If the program reports a stop reason for the interrupt the stub sends that stop, exactly once; if it reports none the target keeps running, or is only stopped once it reports a reason itself, and a reason it has deferred is neither lost nor replaced.",
 ["histories", "schedules"], "all sequences of interrupts, packets, stop reports and interrupt answers up to a depth",
 NOT, ["src/stub/state_machine.rs", "src/protocol/recv_packet.rs"], [("CtrlCInterrupt state", "src/stub/state_machine.rs"), ("deferred stop reason", "src/stub/state_machine.rs:interrupt_handled")])
prop("C07", "The blocking event loop is equivalent to the state machine",
 "For every script of incoming bytes, stop reasons, interrupts and errors, running a session by the blocking event loop produces exactly the bytes, target calls and final result which feeding the same events to the state machine by hand does. The loop calls back for events only while the target runs, calls the interrupt handler once for each interrupt byte, and returns the reason for which the session ended.",
 ["histories"], "all event scripts up to a length, and every command of the corpus, run through both APIs",
 NOT, ["src/stub/mod.rs"], [("run_blocking", "src/stub/mod.rs:GdbStub::run_blocking")])
prop("C08", "Connection failures surface as errors and end the session cleanly",
 "If any read, write, flush or session-start operation of the connection fails, the session ends with an error that carries exactly that connection error and the kind of operation, and the failure is never swallowed, replaced by another error or turned into a panic, wherever in a reply it strikes. Up to the failure the bytes sent are those of a fault-free session, and no further target callback runs for that command once the failure is seen.",
 ["fault_sequences"], "each write, flush, start operation of each command's session failed in turn, for good or once",
 NOT, ["src/protocol/response_writer.rs", "src/stub/core_impl", "src/stub/error.rs"], [("InternalError::conn conversions", "src/stub/error.rs"), ("errors raised inside of callbacks", "src/stub/core_impl/tracepoints.rs")])
prop("C09", "Target errors map to the right reply or end the session",
 "When the target answers a request with a non-fatal error the client gets one error packet whose code is the target's errno (or the documented default 0x79 when it gives none), nothing else of a reply, and the session continues unharmed. When the target reports a fatal error the session ends with exactly that error and no success reply is sent for the command.",
 ["fault_sequences", "inputs"], "each fallible target call of each command failed with each kind of error, every errno value, and sequences of such failures",
 NOT, ["src/stub/core_impl", "src/target/mod.rs"], [("handle_error", "src/stub/core_impl/target_result_ext.rs"), ("error status reply", "src/stub/core_impl.rs")])
prop("C10", "Memory reads return exactly the bytes of the requested range",
 "A memory read of any address and length returns exactly the bytes the target holds there, in order, with the thread selected for `g` (or the only one), regardless of how the stub splits it into buffer-sized pieces and of short answers by the target. If only a prefix is readable the reply is that prefix, if nothing is an error, and a range which would pass the end of the address space is never wrapped around silently nor read beyond it. A malformed request is refused without a read.",
 ["inputs", "configurations"], "every 8-bit address x length x buffer size, address-space edges at 16, 32 and 64 bits, all patterns of short reads",
 NOT, ["src/protocol/commands/_m.rs", "src/stub/core_impl/base.rs"], [("chunked read loop", "src/stub/core_impl/base.rs:_m"), ("buffer reuse", "src/protocol/commands/_m.rs")])
prop("C11", "Memory writes store exactly the given bytes, once, or report an error",
 "`M` and `X` write exactly the bytes of the packet (after hex decoding respectively unescaping) to exactly the given address in the selected thread, touching nothing else, and reply OK only if the target accepted the write. A later read returns what was written, and a failed write is answered by an error. A request whose address or data is malformed is refused and writes nothing.",
 ["inputs", "histories"], "every byte value and escape, all short strings of critical bytes, address edges, error answers, and all read/write histories up to a depth",
 NOT, ["src/protocol/commands/_m_upcase.rs", "src/protocol/commands/_x_upcase.rs", "src/protocol/common/hex.rs", "src/stub/core_impl/base.rs"], [("decode_hex_buf / decode_bin_buf", "src/protocol/common/hex.rs"), ("_M and _X handlers", "src/stub/core_impl/base.rs")])
prop("C12", "The register file read by g and written by G is exact",
 "`g` returns the bytes of the whole register file of the selected thread in the target's order, with unavailable bytes shown as `xx`, and nothing else; `G` hands the target exactly the decoded register file for the selected thread. A malformed or odd file is refused without any partial write.",
 ["inputs"], "register files over all byte values, availability masks and lengths; all errors",
 NOT, ["src/stub/core_impl/base.rs", "src/protocol/commands/_g_upcase.rs"], [("gdb_serialize callback", "src/stub/core_impl/base.rs")])
prop("C13", "Single register access reads and writes exactly one register",
 "`p` returns exactly the bytes the target provides for the requested register number and selected thread, `P` passes exactly the given bytes for the given number, and numbers the architecture does not know are refused with an error or an empty reply without any target call. Registers of every size up to the buffer's are carried without truncation or padding. Malformed numbers or values are refused without a call.",
 ["inputs"], "every register id of the architecture's range, every length and byte value, buffer sizes",
 NOT, ["src/stub/core_impl/single_register_access.rs", "src/protocol/commands/_p.rs", "src/protocol/commands/_p_upcase.rs"], [("RegId::from_raw_id", "src/stub/core_impl/single_register_access.rs")])
prop("C14", "Thread selection routes every operation to the right thread",
 "Register, memory and single-register operations act on the thread last selected by `Hg` (or reported by a stop that names a thread), and `Hc` and resume commands never change that; `0` picks any existing thread and is refused with an error when there is none. Selection survives resumption and all other commands, and on single-threaded targets always means the only thread. A malformed thread id is refused and selects nothing.",
 ["histories"], "all histories of selections, stops, resumes and accesses up to a depth against a reference model",
 NOT, ["src/stub/core_impl/base.rs", "src/stub/core_impl.rs", "src/protocol/common/thread_id.rs"], [("current_mem_tid / current_resume_tid", "src/stub/core_impl.rs"), ("H handling", "src/stub/core_impl/base.rs")])
prop("C15", "Resume requests reach a multi-threaded target exactly as sent",
 "For every `vCont` list (and `c`, `s`) a multi-threaded target first gets its previous actions cleared, then exactly the per-thread actions of the list with the right thread, signal or address range, and then exactly one resume. Threads without an action in the list get none beyond the default the list gives, nothing of an earlier resume leaks into a later one, and a list the target cannot execute is refused before it resumes. A malformed list never resumes.",
 ["inputs", "histories"], "all action lists up to a length over threads, actions and support flags; every signal; range edges; repeated resumes; failing targets",
 NOT, ["src/stub/core_impl/resume.rs", "src/protocol/commands/_vCont.rs"], [("do_vcont_multi_thread", "src/stub/core_impl/resume.rs"), ("Actions iterator", "src/protocol/commands/_vCont.rs")])
prop("C16", "Resume, step, range step and reverse on single-threaded targets",
 "Every resume request reaches a single-threaded target as exactly one call of the requested kind (continue, step, range step, reverse continue, reverse step) with exactly the given signal or address range, and only if the target supports it. The answer to `vCont?` lists exactly the actions that then work. A malformed list never resumes.",
 ["inputs", "configurations"], "all action lists up to a length x support flags, every signal, all 8-bit ranges and edges of wider ones, failing targets",
 NOT, ["src/stub/core_impl/resume.rs", "src/stub/core_impl/reverse_exec.rs"], [("do_vcont_single_thread", "src/stub/core_impl/resume.rs"), ("vCont? reply", "src/stub/core_impl/resume.rs")])
prop("C17", "Breakpoint and watchpoint requests are carried out faithfully",
 "`Z`/`z` of each type call exactly the matching add or remove operation once with exactly the given address, kind or length and watch kind; the client is told OK if and only if the target accepted it. Types the target does not support get an empty reply and cause no call, and addresses or kinds out of range are refused.",
 ["inputs", "histories", "configurations"], "all types x supports, address and kind edges at four widths, all outcomes, and insertion/removal histories compared with a reference set",
 NOT, ["src/stub/core_impl/breakpoints.rs", "src/protocol/commands/breakpoint.rs"], [("handle_breakpoint", "src/stub/core_impl/breakpoints.rs"), ("BasicBreakpoint parser", "src/protocol/commands/breakpoint.rs")])
prop("C18", "Stop replies say exactly why and where the target stopped",
 "Every stop reason a target reports becomes one stop reply with exactly its signal or exit code, thread, and kind-specific detail (watch address and kind, syscall number and side, replay log end), and reasons that need a feature the target does not support end the session with the documented error instead of a wrong reply. A reason that names a thread makes it the current one.",
 ["inputs", "configurations"], "every stop reason x support flags, every status code, thread ids, watch addresses and syscall numbers at edges",
 NOT, ["src/stub/core_impl/resume.rs", "src/stub/stop_reason.rs"], [("finish_exec", "src/stub/core_impl/resume.rs")])
prop("C19", "Thread listing, liveness and extra info are exact",
 "The thread list given to the client contains every active thread exactly once, in order, and ends properly for any number of threads; `T` says a thread is alive exactly if the target says so, and extra info is exactly the target's text as hex. Each query asks the target anew, so changing thread sets are seen. A malformed thread id is never taken for another one.",
 ["inputs", "histories"], "all thread lists up to a size over id edges, every thread id form, extra info up to the buffer limit, list-changing histories",
 NOT, ["src/stub/core_impl/base.rs", "src/stub/core_impl/thread_extra_info.rs"], [("qfThreadInfo / T", "src/stub/core_impl/base.rs"), ("ThreadExtraInfo buffer", "src/protocol/commands/_qThreadExtraInfo.rs")])
prop("C20", "Advertised capabilities are exactly the ones that work",
 "The features advertised by `qSupported` are exactly those the target implements and enables, each advertised one works when used, and PacketSize never exceeds what the stub can receive. Client features it does not know are ignored, and features it does know take effect exactly when offered.",
 ["configurations", "inputs"], "all combinations of the capabilities that drive qSupported, all buffer sizes, all client feature subsets",
 NOT, ["src/stub/core_impl/base.rs", "src/protocol/commands/_qSupported.rs", "src/target/mod.rs"], [("qSupported handler", "src/stub/core_impl/base.rs"), ("IDET extension checks", "src/target/mod.rs")])
prop("C21", "Unsupported and unknown packets get an empty reply and no effect",
 "A packet which the stub does not know, or whose feature the target does not implement or enable, is answered by exactly an empty packet, causes no target call and changes no state; names are matched in full, so no packet is mistaken for another whose name it extends. Only targets that cannot resume get the documented console message and made-up stop.",
 ["inputs", "configurations"], "every command x each missing capability, all short unknown names, all one-edit near misses of known names",
 NOT, ["src/protocol/commands.rs", "src/stub/core_impl.rs"], [("command dispatch macro", "src/protocol/commands.rs"), ("strip_name", "src/protocol/packet.rs"), ("resume stub", "src/stub/core_impl/resume.rs")])
prop("C22", "Object transfers deliver every object byte-exactly and completely",
 "Reading any `qXfer` object (target description, memory map, auxv, executable name, SVR4 libraries) piece by piece with any sequence of offsets and lengths gives exactly the object's bytes, marks the end exactly at its end, and never more data than asked for or than fits the packet buffer. The right object, annex and process are consulted, and an offset at or past the end yields the end marker. A malformed offset or length is refused.",
 ["inputs", "configurations"], "all offsets x lengths x object sizes x buffer sizes up to a bound, all byte values, client reassembly loops",
 NOT, ["src/stub/core_impl/target_xml.rs", "src/stub/core_impl/auxv.rs", "src/stub/core_impl/memory_map.rs", "src/stub/core_impl/exec_file.rs", "src/stub/core_impl/libraries.rs", "src/protocol/common/qxfer.rs"], [("QXferReadBase parser and buffer", "src/protocol/common/qxfer.rs"), ("copy helper for xml", "src/stub/core_impl/target_xml.rs")])
prop("C23", "Host I/O requests are passed and answered exactly",
 "Every `vFile` operation reaches the target exactly once with exactly the given name, flags, mode, descriptor, count, offset and data, and its result comes back as `F<result>[;attachment]` with the attachment escaped and byte-exact. Errors come back as `F-1,<errno>` with the protocol's errno values, and a read never returns more than was asked for or than fits the buffer.",
 ["inputs", "fault_sequences"], "all operations over argument edges, all byte values and lengths, every errno, all stat fields, buffer sizes",
 NOT, ["src/stub/core_impl/host_io.rs", "src/protocol/commands/_vFile_open.rs", "src/target/ext/host_io.rs"], [("handle_hostio_result", "src/stub/core_impl/host_io.rs"), ("packet parsers", "src/protocol/commands/_vFile_*.rs")])
prop("C24", "Extended mode: run, attach, kill, restart and program settings",
 "`vRun`, `vAttach`, `vKill`, `R`, `qAttached` and the environment, shell, ASLR and working directory settings reach the target exactly once with exactly the given name, arguments, pid, key and value, and the reply reflects its answer. `vRun` and `vAttach` end in one stop reply, and `k`/`vKill` end or continue the session just as the target decides.",
 ["inputs", "histories"], "all argument lists up to a size over critical bytes, pid edges, all settings, histories of launches and kills",
 NOT, ["src/stub/core_impl/extended_mode.rs", "src/protocol/commands/_vRun.rs", "src/protocol/commands/_vAttach.rs", "src/protocol/common/lists.rs"], [("ExtendedMode handler", "src/stub/core_impl/extended_mode.rs"), ("Args", "src/target/ext/extended_mode.rs")])
prop("C25", "Monitor commands carry the exact text both ways",
 "A monitor command reaches the target exactly once with exactly the decoded text, and every piece of console output the target writes reaches the client in order and byte-exact, before the final OK. Output of any size, split over any number of writes and flushes, is delivered completely and once. A command that is not valid hex never reaches the target.",
 ["inputs"], "all short command texts, every byte value, all write/flush patterns up to a length",
 NOT, ["src/stub/core_impl/monitor_cmd.rs", "src/target/ext/monitor_cmd.rs", "src/protocol/console_output.rs"], [("ConsoleOutput", "src/protocol/console_output.rs"), ("qRcmd", "src/stub/core_impl/monitor_cmd.rs")])
prop("C26", "Syscall catching is switched exactly as requested",
 "`QCatchSyscalls:0` disables, `:1` without numbers catches all and `:1` with numbers catches exactly the listed system calls in order; each is one target call, whose outcome is reported. A request that cannot be decoded, or that the target refuses, is never confirmed.",
 ["inputs"], "all lists of up to a few numbers over edges at four address widths, plus malformed variants",
 NOT, ["src/stub/core_impl/catch_syscalls.rs", "src/protocol/commands/_QCatchSyscalls.rs"], [("SyscallNumbers", "src/target/ext/catch_syscalls.rs")])
prop("C27", "Tracepoint definitions arrive complete and are enumerated back unchanged",
 "Tracepoints, actions, sources and their options sent by `QTDP` and `QTDPsrc` reach the target in order with exactly the given numbers, addresses, flags, counts, expressions and text, and completion is signalled exactly once after the last part. Uploading (`qTfP`/`qTsP`) returns every defined tracepoint with every action and source exactly once in order and then ends.",
 ["inputs", "histories"], "all small tracepoint sets and action lists, numeric edges, all upload walks",
 NOT, ["src/stub/core_impl/tracepoints.rs", "src/protocol/commands/_QTDP.rs", "src/protocol/commands/_QTDPsrc.rs"], [("TracepointEnumerateState", "src/stub/core_impl/tracepoints.rs"), ("QTDP parser", "src/protocol/commands/_QTDP.rs")])
prop("C28", "Trace experiments: status, frames and buffer are reported faithfully",
 "Starting, stopping and configuring a trace experiment reach the target exactly once with the given settings, and status replies carry exactly the state, stop reason and statistics the target reports. Frame selections ask for exactly the requested criterion and report exactly the frame and tracepoint found (or none), and buffer reads return exactly the target's bytes within the asked length.",
 ["inputs"], "every status x statistic combination, every frame request form with edges, every frame result, all buffer lengths",
 NOT, ["src/stub/core_impl/tracepoints.rs", "src/protocol/commands/_QTFrame.rs", "src/protocol/commands/_qTBuffer.rs"], [("QTFrame / qTStatus / qTBuffer handlers", "src/stub/core_impl/tracepoints.rs")])
prop("C29", "Section offsets, LLDB register info and other queries are exact",
 "`qOffsets` reports exactly the offsets of the target in the documented form, `qRegisterInfo` describes exactly each register of the target or architecture and ends after the last, and `qAttached`, `qC` and similar queries report exactly the target's answers. An override by the target replaces the architecture's answer as documented. A malformed register number is refused.",
 ["inputs", "configurations"], "all offset forms x value edges, every register field combination, every id up to past the end",
 NOT, ["src/stub/core_impl/section_offsets.rs", "src/stub/core_impl/lldb_register_info.rs"], [("qOffsets reply", "src/stub/core_impl/section_offsets.rs"), ("register info formatting", "src/stub/core_impl/lldb_register_info.rs")])
prop("C30", "Architecture register files survive a serialise/deserialise round trip",
 "For every provided architecture, serialising a register file and deserialising the result gives the same registers whatever the file held before, and each register lies at the place, with the size and in the byte order which GDB's layout for this architecture gives it, with placeholders for the registers the architecture has no value for. The program counter is the one of the file, and files too short to hold all registers are refused without a panic.",
 ["inputs"], "every byte value at every byte position of every register of every architecture over several backgrounds, every file length from 0 to past the full one",
 "Unit tests round-trip one value for three architectures and know nothing of GDB's layouts.", ["gdbstub_arch/src"], [("Registers impls", "gdbstub_arch/src/*/reg/*.rs")],
 ["bytes from Registers::gdb_serialize", "fields after gdb_deserialize", "g and G replies of a session"])
prop("C31", "Register ids, register file layout and target XML agree",
 "For every provided architecture each raw register number yields exactly the register GDB gives that number, with the size it has in the register file, and every other number is refused; breakpoint kinds are those GDB sends and no others. The target description is a well-formed `<target>` document naming the right architecture and features, whose registers have the names, numbers and sizes the register ids have, and the AArch64 system register constants equal their architectural encodings.",
 ["inputs"], "every raw id in 0..0x30000 and near every power of two of every architecture, every register of every description, all 872 system registers, all breakpoint kinds below 0x40000",
 "Unit tests compare the sum of the sizes for some architectures only.", ["gdbstub_arch/src"], [("RegId::from_raw_id", "gdbstub_arch/src/*/reg/id.rs"), ("target_description_xml", "gdbstub_arch/src/*/mod.rs")],
 ["RegId::from_raw_id results", "Arch::target_description_xml", "p and P packets of a session"])
prop("C32", "Number codecs convert every value exactly or refuse it",
 "Wherever the protocol carries a number, addresses, lengths and ids of any width are decoded to exactly the value sent or refused if they do not fit, never truncated or wrapped. Numbers sent to the client decode to exactly the original value.",
 ["inputs"], "all digit strings up to a length plus edges, at 8, 16, 32 and 64 bit address widths",
 "Three unit tests per codec check single values.", ["src/internal/be_bytes.rs", "src/internal/le_bytes.rs", "src/protocol/common/hex.rs", "src/protocol/response_writer.rs"], [("BeBytes/LeBytes", "src/internal"), ("decode_hex", "src/protocol/common/hex.rs"), ("write_num", "src/protocol/response_writer.rs")])
prop("C33", "The built-in connections are faithful byte streams",
 "Reading, peeking and writing a TCP or Unix stream connection passes every byte in order, unchanged and exactly once; peeking consumes nothing and says whether a byte is there, reading waits for one, and end of stream or an error is reported as an error, never as data. Boxed and borrowed connections behave the same as the connection they wrap.",
 ["schedules", "histories"], "all sequences of peer sends, closes and local read/peek/write operations up to a depth",
 NOT, ["src/conn/impls"], [("ConnectionExt::peek", "src/conn/impls/tcpstream.rs, unixstream.rs")],
 ["results of Connection and ConnectionExt calls on real loopback sockets"])
prop("C34", "Wrapped targets and connections behave exactly like the wrapped one",
 "A session on `&mut dyn Target`, a boxed target or a boxed or borrowed connection is byte for byte and call for call the same as one on the plain target and connection, for every capability and setting. No capability, override or default is lost or changed by wrapping.",
 ["configurations", "inputs"], "every command of the corpus x every capability set of interest x every wrapper",
 NOT, ["src/target/mod.rs", "src/conn/impls"], [("impl_dyn_target", "src/target/mod.rs"), ("Box<dyn Connection>", "src/conn/impls/boxed.rs")])
prop("C35", "Packet buffer configuration is honoured",
 "A stub built with any buffer and size either refuses the combination with the documented error or works with exactly the capacity given: it accepts packets up to that size, never reports more, and never writes outside of it. The default is a heap buffer of the documented size that grows where allowed.",
 ["configurations"], "all buffer lengths x configured sizes up to a bound x packet lengths around the capacity",
 NOT, ["src/stub/builder.rs", "src/protocol/recv_packet.rs"], [("GdbStubBuilder::build", "src/stub/builder.rs")])
prop("C36", "All build configurations answer the same",
 "With any combination of the crate's features (std, alloc, trace-pkt, paranoid_unsafe, core_error, or none of them), the same client bytes give the same replies, target calls and results. Features change only what they document.",
 ["configurations", "inputs"], "every command and packet sequence of the corpus under each feature combination",
 "The test suite runs under one feature set.", ["Cargo.toml", "src/lib.rs", "src/protocol/packet.rs"], [("cfg(feature) branches", "src")])
prop("C37", "Requests leave nothing behind but the documented session state",
 "In a live session the reply to a packet, the calls it causes, its flushes and the state that follows are determined by that packet, the target's answers and the documented session state: the selected threads, multiprocess extensions and no-ack mode as agreed, and a deferred stop. They do not depend on which other packets were handled before, successful, refused, failed in the target, unknown or resuming, in this or an earlier session, nor on how many there were.",
 ["histories"], "every packet of the corpus after every one, two or three others (with each of their target calls failing), and after hundreds of rounds of every pair",
 NOT, ["src/stub/core_impl.rs", "src/stub/core_impl", "src/protocol/recv_packet.rs", "src/protocol/packet.rs"],
 [("GdbStubImpl (session state)", "src/stub/core_impl.rs"), ("ProtocolFeatures", "src/stub/core_impl.rs"), ("packet buffer reuse", "src/protocol/packet.rs")])

LEVEL = ("Every execution of the real crate inside the stated bounds is run and compared with a reference model written from the protocol "
         "and API documentation; exhaustive inside the bounds, silent outside. Trusts the harness (reference target, wire parser, models).")
TECH = "stateless model checking of the implementation: exhaustive enumeration of inputs/events/faults against a reference model"
SPECIAL = {}

src = "".join(open(f).read() for f in glob.glob(ROOT + "/mc/src/props/*.rs"))
have = set(re.findall(r'id: "(C\d\d)"', src))
NA = []
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["id"] in have:
            f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i not in have: continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=SPECIAL.get(i, TECH), level="model_checking", level_note=LEVEL))
m = dict(version=1,
    setup_cmd="./check.sh setup",
    checks=checks, not_applicable=NA,
    notes="One harness crate (mc/) drives the real gdbstub through its public API; no hooks in /repo are needed. DESIGN.md explains; known_findings.txt lists repaired defects.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print("claimed", len(checks), "of", len(P), "missing", [p["id"] for p in P if p["id"] not in have])
