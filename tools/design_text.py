def d(i, enum, oracle, bounds): ORACLE[i] = dict(enum=enum, oracle=oracle, bounds=bounds)

d("C01", "All payloads of up to two arbitrary bytes after every command name; all unframed byte strings over a small alphabet of the bytes that matter to the receiver; every one-byte edit (replace, insert, delete, truncate) of every packet of a corpus that has every command in several forms; every combination of extreme numbers (0, 1, all powers, all-ones of each width, over-long) in every argument position of every command; ordered pairs and triples of packets; long lists, numbers and data around every counter turn-over from 2^7 to 2^16; targets with legal but extreme answers; the whole corpus with log records formatted.",
  "No panic, abort, overflow (debug assertions and overflow checks are on, also inside std's unsafe preconditions), no execution above 20 s, output either well-formed packets or nothing, the session either alive or ended by an error, at most one reply per packet, buffers handed to callbacks inside of the packet buffer.",
  "Alphabet and lengths are the bounds. Memory unsafety is seen through the library's and std's precondition checks only, not by a borrow checker of executions.")
d("C02", "All 65536 spellings of the two checksum characters; all byte strings of length ≤ 8 over an alphabet of framing characters; packets of all lengths through borrowed buffers one byte too small / exactly fitting and through owned ones; every one-byte corruption of framed packets; sequences of packets of different lengths; patterns of packets repeated up to 140 000 times in one session.",
  "A reference automaton of the framing written from the protocol: which payloads are delivered, which interrupts are seen, where the session must end. Target calls, acknowledgements and replies are compared at every byte.",
  "The digit `x`, which the library's decoder reads as 0, is not used in checksums.")
d("C03", "Replies whose content is fully controlled (a qXfer object): all run patterns over a small alphabet, every byte value × every run length to 400, pairs of runs up to 300 × 300, runs to 70 000; all 256 checksums; hex replies; every command with RLE off and on; replies repeated for 140 000 rounds.",
  "The strict client parser (framing, no bare `#`/`$`, checksum over the wire bytes, counts 29..126 and never `#`/`$`), the decoder of the GDB manual, and the object itself.",
  "How well runs are compressed is not part of the property, so any division of a run is accepted.")
d("C04", "All sequences of commands (with no-ack requests, commands that resume, fail, disconnect, and stray acknowledgements) up to a depth; every command of the corpus with and without no-ack mode; all placements of client acknowledgements between packets; repeated patterns.",
  "A model of what has to be on the wire after each packet: exactly one `+` unless no-ack mode was agreed *before* the packet, exactly one reply of the right kind, all of it flushed before the stub asks for input.",
  "A client's `-` ends the session by a documented error; retransmission is not offered by the library.")
d("C05", "All sequences of client packets, stop reasons, interrupts and re-idling up to a depth; the same with every short pattern repeated thousands of times (lasso); every command in every state; the start guard over all capability combinations.",
  "A reference automaton of the state machine (Idle/Running/CtrlC/Disconnected with reason) with the calls and bytes each transition may cause.",
  "No-ack, multiprocess mode and the selected thread after a return to Idle are not specified and not asserted.")
d("C06", "All histories of interrupts in Idle and Running, answers to them (none, a signal, a breakpoint, an exit), resumes, stops and commands in between up to depth 9/12; repeated patterns; the interrupt byte at every position in and around packets.",
  "A model that carries the deferred stop reason: an interrupt answered while idle defers its reason to the next resume, a later answer without a reason keeps it, exactly one stop reply is sent for it.",
  "If two reasons are deferred, the later replaces the earlier (the session has one stop).")
d("C07", "All scripts of bytes, stop reasons, interrupts and errors up to a length, repeated patterns, and each command of the corpus, driven once through `run_blocking` and once by hand through the state machine.",
  "Differential: bytes, connection operations, target calls and the final result must be equal; plus the call discipline of the event loop (waits only while running, one interrupt callback per interrupt).",
  "The event loop returns what its contract allows.")
d("C08", "For each command of the corpus and for session start, stop replies and multi-packet replies: every single read/write/flush/start operation the session performs, failed once or for good.",
  "The bytes up to the failure are a prefix of the fault-free run, the error returned is the connection's with the right kind, no target callback after it, no panic.",
  "One fault per execution (permanent or transient).")
d("C09", "Every target call of every command (the n-th of each) × every kind of error; every errno from 0 to 255; sequences of commands with failures at any position.",
  "Non-fatal: exactly one `Exx` with the errno or the default, session goes on and later commands behave as without; fatal: exactly that error, no success reply.",
  "A target that reports an error from a streaming callback has not called the callback before. Calls that can only fail fatally are tabulated. A GDB File-I/O error is in C23.")
d("C10", "8-bit address space: every address × length × buffer size; 16/32/64 bits at all edges; all patterns of short answers and failures per chunk; all spellings of the numbers; long reads around the counter turn-overs with buffers of any size; every thread selection; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "The reference memory: longest readable prefix, error if there is none; calls stay inside of the range and on the selected thread; division into calls is free.",
  "A zero-length read may be answered in any way that touches no memory.")
d("C11", "Every byte value, all short strings in all escape styles, address edges of every width, every error, all histories of reads and writes over a small memory, long writes; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "Memory after the calls (whatever their division) equals the memory with the bytes written; OK iff accepted.",
  "A length field that disagrees with the data is ignored by design; writes past the end of the address space are the target's to judge.")
d("C12", "Every register file up to a size over {value, unavailable}; every byte value; every length of `G`; every error; long files; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "The harness' own architecture, whose register file is a byte string, so content and order are compared exactly.",
  "The architectures shipped are checked in C30/C31.")
d("C13", "Every register number to past the end, every length, every byte value, every buffer size, errors, long values; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "Exact call and exact hex; a number the architecture refuses causes no call.",
  "A value that does not fit the buffer may be refused, never cut.")
d("C14", "All histories of Hg/Hc/resume/stop/commands up to a depth over multi-threaded targets, with and without process ids, lassos; all forms of any/all; single-threaded targets; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is selected; every packet of the corpus, carried out or failing, between a selection and its use.",
  "A model of the selected thread; every routed call must carry it.",
  "Before the first selection or stop the thread is unspecified (the stub uses 1); an id the target lacks is the target's to refuse.")
d("C15", "All lists of up to 3 of 10+ actions × thread forms × support sets; every signal; all ranges of 8 bits' edges and 64 bits' edges; histories of resumptions (nothing lingers); long lists; each fallible call failed; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "The plan the target was given, reconstructed from the calls in whatever order, equals the plan of the list; clear first, resume last and once.",
  "Signals for all threads cannot be expressed by the target API; lists naming a thread twice or with the catch-all before specific threads are never sent by GDB and left open.")
d("C16", "All lists, all signals, all ranges, all support sets of single-threaded targets; histories of reverse execution; `vCont?` × support; lassos; long lists; failures; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "Exactly one call of the requested kind with the requested values; `vCont?` names an action iff sending it resumes.",
  "A list whose second action is not a plain continue may be refused; the address of `c`/`s` is ignored by the stub, as documented by its TODO.")
d("C17", "Every type × support set × outcome; all address edges of every width × kinds; attached condition and command lists; histories over 20 requests with refusing targets; lassos; up to 70 000 different breakpoints.",
  "Exact call, OK iff accepted; the set the client believes to be inserted equals the set the target inserted.",
  "Conditions and commands are not advertised, so they are ignored.")
d("C18", "Every reason × every support set × multiprocess; every status byte; thread and process ids of every size; watch addresses: all of 8 and 16 bits, edges and single bits of 64; syscall numbers; reasons of single-threaded targets; `?`; patterns of stops repeated; the thread that `g` and `s` act on after a stop with each status byte.",
  "The stop reply parsed into signal + pairs equals the expected set; reasons without support end the session and write nothing.",
  "Single-threaded targets may leave out their only thread in replay and syscall stops.")
d("C19", "All thread lists over ids of every length up to a size × buffer sizes, up to 70 000 threads; liveness of all forms; extra info of every length against every buffer; histories in which the set changes; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "The enumeration of qfThreadInfo/qsThreadInfo is the list, exactly once and in order.",
  "The empty list may be answered with `m` or `l`.")
d("C20", "All 2^n capability sets; all buffer sizes; every advertised feature used and every unadvertised one tried; all short lists of client features incl. unknown ones, up to thousands; renegotiation; no-ack.",
  "A table feature ↔ capability from the GDB manual; the packet of the feature is accepted iff advertised; PacketSize packets fit.",
  "qSupported without multiprocess after one with it, and duplicates in one packet, are unspecified.")
d("C21", "Each optional command with each non-empty subset of its capabilities off (× argument variants); every one- and two-byte unknown packet; unknown names of every length; every known name extended or truncated by any byte; histories in which unsupported commands are mixed with supported ones.",
  "Exactly an empty packet, no call, and the next commands unaffected.",
  "A recognised name with malformed arguments ends the session by an error (C01).")
d("C22", "All (offset, length, object size) triples up to a size; edges to 2^64; client reassembly with every chunking; every byte value (escapes, `]`, `*`) × RLE; annexes; all description sources; buffers just fitting; objects changing between reads; up to 70 000 bytes; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out; objects longer than one byte counts, every offset × the usual lengths.",
  "Data is the slice of the object at the offset, end marked iff reached (`m` at the very end is tolerated as the protocol allows), never more than asked or than fits.",
  "Zero-length transfers may carry either marker.")
d("C23", "Every flag and mode bit (GDB's and LLDB's) and every combination; all names, descriptors, counts, offsets of each width; every errno; every byte of data; lying and short targets; every buffer size; histories; long names and data.",
  "Exact call; `F` reply parsed strictly; struct stat decoded from its 64 bytes; named constants equal the protocol's.",
  "Unknown flags may be refused in any way that reaches no call.")
d("C24", "All argument lists to a size over bytes incl. escapes, every byte, pids, all k/vKill/R/attach decisions, keys and values over all strings to a length incl. `=` and empty, histories, long strings and lists.",
  "Exact calls and a reply that reflects the answer; the session state that follows.",
  "`k` may be answered or not; an empty value may be passed as none.")
d("C25", "All command texts to a length, every byte, all divisions of outputs into writes and flushes, every output length, thousands of pieces; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "Concatenated `O` texts equal the output in order, then exactly one OK.",
  "Division into packets is free.")
d("C26", "All lists over number edges of every width, malformed lists, long lists and numbers, refusals, histories.",
  "One call with exactly the numbers; OK iff accepted.",
  "A number too wide may be noticed only when the target reaches it.")
d("C27", "Definitions with all field values at every width, all short action lists, every expression byte and length, several packets per tracepoint, two tracepoints taking turns, sources of each kind; upload of all small sets of tracepoints × actions × sources; interrupted, restarted and failing walks.",
  "The sequence of target calls equals the definition; the upload equals the reference list, each item once, then the end.",
  "Conditions, fast/static tracepoints, while-stepping and M actions are documented as unimplemented and must be refused.")
d("C28", "All experiment status variants × explanations × texts × statistics at number edges; all frame requests at every width; all results; buffer reads over all (offset, length, size); every byte; histories; the target's own texts with blanks and separators passed unchanged.",
  "Status replies parsed field by field; requests and results exact.",
  "Fields a target fails to give are left out; an empty answer of the buffer callback gives an empty reply.")
d("C29", "All offset combinations at edges of each width; every register field × encoding × format × generic; every id; lists to 70 000; who answers; qC and qAttached over states; requests spoiled in one place (each digit replaced by each kind of non-digit, separators left out or doubled): nothing is carried out.",
  "The documented forms, parsed into fields.",
  "Order of fields is free; qC of a selected thread 1 reports the first thread (a documented hack).")
d("C30", "For each of the shipped architectures: every byte of every register set alone, every file length, the register groups of x86, and all of it through g/G of a session.",
  "Tables written from GDB's target descriptions: place, size and byte order of each register; round trip onto a file that held other values.",
  "Trailing padding may be shortened; values of placeholders are not kept.")
d("C31", "Every register number 0..2^16 and edges for each architecture; every attribute of every register of every description document; every AArch64 system register constant; every breakpoint kind.",
  "GDB's numbering and feature tables; an XML parser of its own; the encodings of the Arm ARM.",
  "One known finding (AArch64 fpsr/fpcr size). RISC-V and MIPS64 documents name no `<architecture>`: allowed.")
d("C32", "All 8- and 16-bit values exhaustively, wider ones at single bits/edges; byte strings of any length; all short digit strings and edges in ~40 places of the protocol where a number is decoded and ~20 where one is encoded.",
  "Arithmetic of 128 bits in the harness.",
  "`x` as a digit reads as 0 (documented).")
d("C33", "All sequences of read/peek/write/flush and client actions (send, close, reset, half-close) to a depth on real TCP and Unix socket pairs; every byte; blocking reads and writes; every wrapper method on a recording connection.",
  "A byte-queue model of the stream.",
  "The kernel's own delay is not part of the property (late bytes are waited for, 5 s).")
d("C34", "Every command × every capability alone/absent × wrapper; pairs; stop reasons; start; blocking loop; failing connections.",
  "Differential against the plain target and connection: bytes, calls, operations, states.",
  "The plain session is judged by the other properties.")
d("C35", "All buffer lengths × sizes × kinds; every packet length around the capacity; sequences through one buffer; the default.",
  "Documented errors, exact capacity, guard bytes around a borrowed buffer.",
  "The capacity counts the framed packet.")
d("C36", "23 builds (7 quick): all combinations of std/alloc/none, trace-pkt, paranoid_unsafe, core_error, release without checks, with a crate of its own (`mc/feat`) that replays the corpus and sessions; × each session.",
  "Differential: replies, calls, results equal to the default build's.",
  "Console flushing depends on `alloc` and is joined; UnixStream::peek under paranoid_unsafe panics as documented.")
d("C37", "Every packet of the corpus (and unusual, refused and unknown ones, stray acknowledgements and interrupts) after every other, also with each call of the target failing; after every two; after every three kinds; after hundreds of rounds of every pair; × multi- and single-threaded, multiprocess, no-ack, lean and full targets.",
  "Differential: the same packet in a fresh session that was brought to the same documented state: bytes, flushes, calls, state, and the stop reply if it resumed. The references are kept for the whole run, so that state kept between sessions shows as well.",
  "What a packet does on its own is judged by the other properties. Each packet gets a fresh target, so that the target's own state plays no part. Whether a bare `qSupported` takes back the multiprocess extensions is not specified.")
