# id -> (oracle, reach: why a search gets where the tests cannot, not asserted / bounds)
N = {
"C01": ("model of every live chain (contents, order, addresses, flags, times, ownership), live-heap accounting, AddressSanitizer",
 "the test has one fixed chain; ownership errors need advance/dup/free histories", ""),
"C02": ("a model of every item of every driver plus synthetic items of all types",
 "defaults, choices and refreshes only interact in histories", "unspecified item types only need to be refused; the text grammar is the one the generator emits"),
"C03": ("an independent formatter; all 65536 two-byte codes are covered in every run", "tests print a handful", "encodings other than J2012 are only required to be reported as undecodable and bounded"),
"C04": ("a latch model, and independent hex dump/concatenation/list models", "the latch needs histories; never exercised by a test",
 "timeouts are documented as not latched"),
"L01": ("the wire trace of a simulated interface: bytes, order, number of writes, virtual-time gaps, echo consumption",
 "tests' interface has neither echo nor spacing", ""),
"L02": ("a model of links, connections and sessions with the L0 calls counted; heap balance at the end", "needs failed opens/starts in the middle of histories",
 "start failures of every protocol are injected by refusing vehicles, interface errors and impossible arguments"),
"L03": ("a model of every connection's idle clock against the frames seen on the wire, for every tick",
 "tests run too short for any keep-alive", "intervals accepted: 3333 ms (14230, D2), 500 (VAG), 666 (MB1), 3500 (J1979 session) +-20 ms; a failed operation leaves the clock unspecified; interleavings inside operations are L04's"),
"L04": ("the model vehicles know which request of the tester is due and whether an answer is under way; a deterministic scheduler lets the real timer routines run in a second thread, switched at OS calls and waits by generated choices",
 "tests cannot choose when the timer fires", "switches only at OS calls, waits and locks (not between two memory accesses); vehicles always answer; a connection that becomes idle between a send and its receive because other connections' keep-alives took that long is left out; keep-alive due is only required when no operation runs"),
"L05": ("times of the transmissions in virtual time against P3min and P4 of the standards; the recorded line settings", "no test looks at times on the bus", "P3min is counted from the last byte the tester took; a tester that does not read answers is not generated"),
"K01": ("an independent ISO 14230 frame parser on the wire trace", "header forms depend on key bytes, addressing and interface class", ""),
"K02": ("the generated frame list", "frames of several ECUs with faults in any position", "a frame with a bad checksum may be dropped or delivered marked BADCS"),
"K03": ("a transition model of pending/busy/negative answers counting transmissions and virtual time",
 "no test ECU is busy", "which error code a failed request reports is not asserted"),
"K04": ("a model of the initialisation dialogue, heap balance", "every step can fail", "a key byte 2 other than 0x8f only warns"),
"N01": ("a model of the handshake per interface class, virtual time for W-times", "needs late/missing/stale bytes", ""),
"N02": ("independent framing and sums; the generated frame list", "frames are split by time", ""),
"J01": ("independent SAE CRC (bit-serial) and framing", "CRC lengths, per-interface framing", ""),
"R01": ("wire trace, exact-size heap blocks", "all lengths to the limit", ""),
"V01": ("a byte-level KWP1281 ECU that checks every complement, counter and length the tester sends and generates faults",
 "the protocol is stateful per byte", "key bytes are recorded, not validated; the first byte after a restarted block needs no complement delay; an ECU that repeats NoAck forever blocks the tester as long as it talks"),
"B01": ("independent MB1 framing and 16-bit sum", "all lengths, odd sums, mis-sized answers", "a silent StartCommunications need not latch an error (the commands above it do report failure)"),
"D01": ("independent D2 framing; a model of 'not complete yet'", "numbers of pending answers", "'too short' means fewer than 5 bytes"),
"X01": ("termination (3 million OS calls, 10 s CPU), AddressSanitizer, every returned message inside the bytes received, session closable, heap balance",
 "any byte stream at any state of any protocol", "with an application layer attached, or in monitor mode, containment is only 'each data byte was received'"),
"X02": ("invariants after every command (state = connection = interface open, no locks, no leaked files), AddressSanitizer, every command ends within a bounded number of OS calls, interface closed after quit", "argument combinations and orders nobody would script: commands in the wrong state, missing or surplus arguments, hostile answers to each",
 "what a command prints or sends is decided by A01-A03, I02, I03, Y01-Y02; `rvi` (known finding A01) and the interactive self-tests are left out"),
"T01": ("independent header tables and framing per link; generated answers", "answer cutting on unframed links", ""),
"T02": ("independent table-driven decoders; messages live in exact-size heap blocks", "all messages and buffer sizes", "at most 3 trouble codes are shown per message (as documented); the VAG layer's send/receive are stubs of the base class and not asserted"),
"S01": ("a model ECU; caller buffers are exact-size heap blocks", "payloads longer than the caller's space, multi-message answers", "memory reads over 58 bytes end as errors; the second byte of a 2-byte answer is not compared"),
"S02": ("a model ECU on top of the KWP1281 byte model", "same", "the first block of trouble codes is what is returned (documented); a case ends after silence"),
"E01": ("an independent reading of the database text and token evaluator", "overlapping patterns, layout, damaged texts", "requests shorter than a pattern do not match; combinations of framing options not asserted; a sine outside byte range is left open"),
"E02": ("a model adapter (ELM323/327, versions, clones) that implements the documented AT commands and prints answers in every documented form", "adapters differ per command and version",
 "data returned must be exactly a printed line; a reception may fail only if the line was bad or came after the deadline; after a serial port fault the rest of the line is open"),
"E03": ("a model adapter with packet checks", "packet padding and misalignment", "checksum over bytes 1..12 or 1..13 accepted; speeds within 6 %; after misalignment only 'data lies in a window with right checksum'"),
"E04": ("a model adapter with control bytes, frame numbers and busy/pending states", "frame order and cut packets", "packets slower than 95 ms may fail; cut packets followed within 150 ms cannot be told apart"),
"E05": ("a model ECU decoding the K and L line levels from the port calls in virtual time", "timing per option combination; the two disabled tests show that it is not testable against the real clock", "edges within 3 % (+12 ms); L starts within 20 ms of K; a late ECU (after 420 ms) may fail"),
"O01": ("the kernel's pty line discipline as receiver, wrapped system calls for modem lines, breaks, speeds and faults, virtual time", "partial, interrupted and failing calls",
 "speeds within 3 %; after a hard error the case ends; the POSIX-timer and select-less variants are not compiled here and not checked"),
"O02": ("a simulated kernel (clocks, sleeps, timers) that knows the true time; expiries are delivered by calling the registered function, also from a second thread", "interruptions, missing clocks, failing timers and overlapping expiries do not happen in tests",
 "a sleep may take 500 us plus the simulated latencies more; gettimeofday, SIGALRM and /dev/rtc variants are not compiled here"),
"I01": ("a reference interpreter of command trees and scripts", "nesting, sourcing, over-long lines", "sourcing a directory executes nothing; no quoting exists"),
"I02": ("the value is generated, then written in a notation", "bases, signs, sticky state between calls", "32-bit patterns beyond INT_MAX wrap; beyond 32 bits reads 0"),
"I03": ("a model of all settings, read back both as shown and from the globals that connections use", "settings are coupled through shared state", "a negative speed is open"),
"I04": ("the reference interpreter of I01 gives the menu at each prompt; readline itself is asked to insert all completions", "prompts after any history, the cursor anywhere", "words typed in other case or of unlisted commands are only checked for soundness; needs the readline build"),
"A01": ("an independent model of the OBD dialogue: each request and each printed line is predicted", "cars with up to 10 ECUs, arbitrary bitmaps, refusals", "mode-5 test 9 scale, behaviour after mixed accept/refuse of clearing, and 'Failed' lines are open; two findings are excluded by construction"),
"A02": ("requests and every output line are predicted from model ECUs", "any answer length for any command", "resistance of the ATF sensor not asserted at raw >= 1023; a dump to a full device only asserted when something was readable"),
"A03": ("requests, output and link state are predicted from a model vehicle", "any link protocol and interface", "byte values 0-255 only; read is not asserted on VAG/MB1"),
"G01": ("the log file is predicted line by line, virtual time to the ms", "appending, automatic names, menus", "the command typed when logging starts is not in the log (documented order)"),
"Y01": ("the documented formulas in long double", "degenerate data sets", "torque checked below 30 MW, power below 90 m/s"),
"Y02": ("requests, recordings, tables and files are predicted from the generated answers in virtual time", "runs end on answers", "gear only from 300 rpm average; graph open for values over 1e8"),
}
NEW = {}
