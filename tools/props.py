#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

CORE = "source/cyCore/core/"; EV = "source/cyEvent/event/"; NET = "source/cyNetwork/network/"; CR = "source/cyCrypt/crypt/"; UT = "source/cyUtility/utility/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                  _tech=technique, _note=note))

SC = "Schedules are explored at the granularity of every memory access under sequential consistency; weak-memory reorderings are not."

prop("C01", "RingBuf is an unbounded FIFO of bytes",
     "A ring buffer behaves as a byte FIFO for every sequence of operations: what is written comes out once, in order and unmodified, through reads, peeks, discards, copies to another buffer, flattening and resets, whatever wrapping or growth happened in between. Sizes, free space, search positions, in-place peeks/checksums and results of short or over-long requests agree with that FIFO. No operation reads or writes outside its storage.",
     ["inputs", "histories"], "every sequence of memory operations, sizes (0 to several capacities) and contents, at every head/tail position",
     "Unit tests walk a few fixed positions; wrap-around, exact-full, growth-while-wrapped and huge-count combinations are unbounded.",
     [CORE + "cyc_ring_buf.cpp", CORE + "cyc_ring_buf.h"], [("modular read/write offsets with one spare byte", CORE + "cyc_ring_buf.cpp"), ("_reset on growth", CORE + "cyc_ring_buf.cpp")],
     "stateful property-based testing against a std::deque reference model, AddressSanitizer", "Random operation sequences vs a model; not exhaustive.", ["RingBuf public API"])
prop("C02", "RingBuf socket transfer is exact",
     "Moving data between a ring buffer and a socket neither loses, duplicates, reorders nor alters bytes: the bytes the peer gets are exactly those removed from the buffer and the bytes added are exactly those taken from the socket, for every buffer state, partial transfer and amount of pending data. The returned count equals the number of bytes moved, end-of-stream gives 0 and would-block or errors give a negative result without changing the buffer.",
     ["inputs", "histories", "fault_sequences"], "every buffer fill/wrap state × amount pending × kernel buffer size × peer behaviour (open, closed, reset)",
     "Tests use one socket pair with a few fixed sizes; partial reads/writes straddling the wrap point need particular combinations.",
     [CORE + "cyc_ring_buf.cpp"], [("readv/writev scatter lists over the two segments (+ stack extra buffer)", CORE + "cyc_ring_buf.cpp")],
     "stateful property-based testing over real socket pairs against a byte-stream model, AddressSanitizer", "Random histories; kernel behaviour is that of this Linux.", ["RingBuf::read_socket", "RingBuf::write_socket"])
prop("C03", "Lock-free queue is a linearizable bounded FIFO",
     "For any number of concurrent producers and consumers, every element accepted by push is returned by exactly one pop, unmodified, and if one element's push completed before another's began they are popped in that order. push refuses only when the queue was full and pop only when it was empty at some instant of the call, the queue never holds more elements than its capacity, and its idle size equals accepted minus extracted.",
     ["schedules", "histories"], "every interleaving of any number of pushers and poppers, for every queue size and element type",
     "The existing test runs one producer/consumer mix on the free-running scheduler; losing interleavings need a preemption at a particular instruction while the indices wrap.",
     [CORE + "cyc_lf_queue.h"], [("two-stage indices (write/max-read) advanced by compare-and-swap", CORE + "cyc_lf_queue.h")],
     "property-based testing with generated schedules (controlled scheduler at every memory access) against a linearizability oracle; sequential model-based testing", SC, ["LockFreeQueue::push/pop/size"])
prop("C04", "Packets are reassembled exactly from any byte stream",
     "Packets built, concatenated and delivered as a byte stream are recovered as the same packets (size, id, content) in order, however the stream entering a ring buffer is cut into chunks, and likewise when whole packets pass through a pipe. An incomplete packet is never produced, and leaves a ring buffer untouched so that the stream still parses once the rest arrives. Header fields are in network byte order and clean, copy and re-build keep these guarantees.",
     ["inputs", "histories"], "every list of packets (ids, payload sizes 0..65535, head sizes ≥ 4) × every chunking × every source kind",
     "Tests build a handful of fixed packets delivered in one or two pieces; framing faults appear at particular cut points and sizes.",
     [EV + "cye_packet.cpp", EV + "cye_packet.h"], [("size/id header + static buffer or heap by size", EV + "cye_packet.cpp")],
     "property-based round-trip and chunking testing against a reference encoder, AddressSanitizer", "Random packets and chunkings.", ["Packet public API"])
prop("C05", "Pipe is an ordered non-blocking byte channel",
     "Bytes written to a pipe are read back in order, unmodified, exactly once; neither end ever blocks the caller or is inherited by a program the process starts. A write or read reports exactly how many bytes it moved, and an empty or full pipe is reported as an error without side effects. Readiness of the read port follows whether unread bytes exist.",
     ["inputs", "histories"], "every interleaving of reads and writes of any size, up to and beyond the kernel's capacity",
     "The test writes a few integers; full-pipe partial writes and interleavings are not reached.",
     [EV + "cye_pipe.cpp"], [("pipe2/socket pair with O_NONBLOCK", EV + "cye_pipe.cpp")],
     "stateful property-based testing against a byte-queue model (both pipe back ends)", "Random histories on this kernel.", ["Pipe public API"])
prop("C06", "Work thread handles every message exactly once, in order",
     "Every message sent to a work thread, from any number of threads, before or after it has started, is handed to the thread's message callback exactly once, unmodified, on that thread and in the order each sender sent it; the sender keeps its own packets. No message waits forever while the thread is idle. The start callback runs once before any message, and a start callback answering false ends the thread; messages sent later do not crash.",
     ["schedules", "histories"], "every interleaving of senders with the thread's start, wake-up, drain and callback steps; every message size",
     "No test sends from several threads; a lost wake-up needs one preemption between the consumer's drain and its flag update.",
     [EV + "cye_work_thread.cpp", EV + "cye_work_thread.h", CORE + "cyc_lf_queue.h"], [("lock-free queue + wake-up pipe byte guarded by an 'is empty' flag", EV + "cye_work_thread.cpp")],
     "property-based testing with generated schedules (controlled scheduler), history oracle and stuck detection", SC, ["WorkThread::send_message", "message callback"])
prop("C07", "Looper reports an event iff registered, enabled and ready",
     "Each registered event whose read or write interest is enabled and whose descriptor is ready gets exactly the matching callback, with the registered parameter, once per loop round and after a bounded number of rounds however many others are ready; a disabled, unregistered or unready event gets none, whatever registrations, enables, disables and deletions preceded. Re-enabling an event on a still-ready descriptor reports it again, and query functions report the current interest. This holds for every poll back end.",
     ["histories", "inputs"], "every sequence of register/enable/disable/delete over any number of descriptors and readiness patterns; epoll and select back ends",
     "Tests register one or two sockets; id reuse, interest churn on many descriptors and the select back end are not exercised.",
     [EV + "cye_looper.cpp", EV + "internal/cye_looper_epoll.cpp", EV + "internal/cye_looper_select.cpp"], [("channel table with free list and per-back-end active lists", EV + "cye_looper.cpp")],
     "stateful property-based testing against a reference readiness model, differential over epoll and select builds, AddressSanitizer", "Random histories over pipes and socket pairs.", ["Looper::register_event/enable_*/disable_*/delete_event", "callbacks"])
prop("C08", "Callbacks may change registrations freely",
     "A callback may register, delete, enable or disable any event, including the one being dispatched and others that are ready in the same round. A deleted event is never called again, a newly registered event is only called for readiness of its own descriptor, every other ready event is still served, and no memory is used after release.",
     ["histories", "inputs"], "every program of registration changes performed inside callbacks, with any set of simultaneously ready descriptors",
     "No test changes registrations from inside a dispatch round with several ready events.",
     [EV + "cye_looper.cpp", EV + "internal/cye_looper_epoll.cpp", EV + "internal/cye_looper_select.cpp"], [("channel table growth and slot reuse during dispatch", EV + "cye_looper.cpp")],
     "property-based testing of generated callback programs against a model, AddressSanitizer, epoll and select builds", "Random programs.", ["Looper callbacks"])
prop("C09", "Timers fire on time, repeatedly, until removed",
     "A registered timer fires first no earlier than its period after registration and then keeps firing once per period until it is deleted or disabled; it never fires afterwards, and one timer never delays or triggers another. Over an observation window the number of firings equals elapsed time divided by period up to scheduling delay (periods that pass while a callback keeps the loop busy may be merged), for any set of timers added and removed at any time.",
     ["histories", "inputs"], "every set of periods and every time of registration, disabling, deletion, including from timer callbacks",
     "One test uses fixed timers; mixes of periods with removal and slow callbacks are not covered.",
     [EV + "cye_looper.cpp", EV + "internal/cye_looper_epoll.cpp", EV + "internal/cye_looper_select.cpp"], [("timerfd / computed select timeout", EV + "internal/")],
     "property-based testing of generated timer programs against a timing model with one-sided hard bounds", "Upper bounds on lateness are soft (confirmed by repetition) since they depend on the machine.", ["Looper::register_timer_event"])
prop("C10", "A stop request ends the loop, from any thread, at any time",
     "After a stop request made by any thread, including from a callback or concurrently with the loop entering its wait, the loop returns, after finishing the callbacks in progress, and no later wait is entered. Requests racing with each other or with the loop's exit neither crash nor leave a loop running, and once they returned the looper can be destroyed safely.",
     ["schedules"], "every interleaving of one or more stop requests with loop entry, wait, dispatch and exit",
     "Tests stop one loop from one thread at one time; the race with loop exit needs a preemption between a check and a write.",
     [EV + "cye_looper.cpp", EV + "cye_pipe.cpp"], [("inner pipe made readable by the request", EV + "cye_looper.cpp")],
     "property-based testing with generated schedules (controlled scheduler), stuck and use-after-free detection", SC, ["Looper::loop", "Looper::push_stop_request"])
prop("C11", "Signals, mutexes and threads behave as specified",
     "Each notification of a signal releases one waiter (an auto-reset event): it is never lost when nobody waits yet, consecutive notifications without a waiter count once, and a timed wait returns true iff it consumed a notification, otherwise only after at least its time-out. Critical sections of one mutex exclude each other, and try_lock succeeds iff the mutex was free within its time. A created thread runs its function once, and join returns only after it finished.",
     ["schedules", "inputs"], "every interleaving of waiters, notifiers, lockers and timeouts",
     "The signal test is one ping-pong; lost notifications require particular interleavings.",
     [CORE + "cyc_system_api.cpp"], [("condition variable + flag", CORE + "cyc_system_api.cpp"), ("pthread mutex, timedlock", CORE + "cyc_system_api.cpp")],
     "property-based testing with generated schedules (controlled scheduler) against a counting model", SC, ["sys_api"])
prop("C12", "TCP stream is delivered intact",
     "On every established connection, the bytes passed to send in order by one thread are exactly the bytes the other side's input buffer receives, in order, whatever the sizes, the speed of the reader, the kernel buffering and how much input the callback leaves unread. This holds simultaneously in both directions and for any number of connections, which never exchange data with each other. A send-complete callback follows once everything sent was handed to the kernel.",
     ["inputs", "schedules", "histories"], "every sequence of sends (1 byte to megabytes), read pacing, socket buffer size and number of connections and work threads",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_connection.cpp", NET + "cyn_tcp_server.cpp", CORE + "cyc_ring_buf.cpp"], [("direct send + write buffer drained on writability", NET + "cyn_tcp_connection.cpp")],
     "property-based testing over loopback with generated traffic and adversarial socket faults (short writes, EAGAIN), byte-stream oracle, AddressSanitizer", "Random traffic over loopback.", ["TcpConnection::send", "message callback", "raw peer sockets"])
prop("C13", "Concurrent sends are atomic and ordered per sender",
     "When several threads send on one connection at the same time, including its own callback thread, the peer receives each sent block contiguous and unmodified, the blocks of each thread in the order it sent them, and nothing is lost, duplicated or left waiting in the output buffer forever.",
     ["schedules"], "every interleaving of senders with each other and with the drain of the output buffer, under short writes",
     "No test sends from two threads; corruption needs a partial direct write preempted before the remainder is queued.",
     [NET + "cyn_tcp_connection.cpp"], [("write-buffer lock and write-event enabling", NET + "cyn_tcp_connection.cpp")],
     "property-based testing with generated schedules and injected short writes (controlled scheduler) against a per-sender sequence oracle", SC, ["TcpConnection::send"])
prop("C14", "Connection callbacks come once, in order, on one thread",
     "Each accepted connection gets exactly one connected callback, then message callbacks, then exactly one close callback when it ends for whatever reason (peer close or reset, local shutdown, server stop), and nothing afterwards; all of them run on the one work thread the connection belongs to. Connection ids are unique, and inside callbacks the connection reports consistent state, names and addresses.",
     ["histories", "schedules"], "every order of connects, data, closes, resets, local shutdowns from callbacks or other threads, any number of work threads",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_connection.cpp", NET + "cyn_tcp_server.cpp", NET + "internal/cyn_tcp_server_work_thread.cpp"], [("connection state machine and work-thread ownership", NET + "internal/cyn_tcp_server_work_thread.cpp")],
     "stateful property-based testing with generated peer behaviour against a life-cycle automaton, AddressSanitizer", "Random histories over loopback.", ["TcpServer::Listener callbacks"])
prop("C15", "Shutdown delivers everything sent before it",
     "Data accepted by send before a local shutdown reaches a peer that keeps reading and has nothing of its own left unread, followed by end-of-stream; shutdown from any callback or thread, repeated, or racing with the peer's close never loses, duplicates or crashes anything and always ends in one close callback once the peer finishes. A send after the connection is closed is refused or dropped, without effect on others.",
     ["inputs", "schedules", "histories"], "every amount of pending output × peer read pacing × time and thread of the shutdown",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_connection.cpp"], [("kDisconnecting state drains output before half-close", NET + "cyn_tcp_connection.cpp")],
     "property-based testing over loopback with generated pending output and pacing, byte-stream + life-cycle oracle, AddressSanitizer", "Random histories over loopback.", ["TcpConnection::shutdown", "TcpServer::shutdown_connection"])
prop("C16", "Stopping a server terminates and closes everything",
     "After stop has been requested from a thread outside the server, join returns, whatever connections exist or are being accepted, closed or shut down at that moment; every connected callback is matched by one close callback before it returns. Afterwards all listening ports refuse connections, every peer sees its connection end, no descriptor or thread is left, and the object can be destroyed; a stop requested from a work thread is refused without harm, as is a start with a number of threads outside 1 to 32 or of a server that runs already. (Stopping is graceful: output pending for a stalled peer may delay it.)",
     ["schedules", "histories"], "every interleaving of stop with accepts, closes, messages and shutdowns; any number of ports, threads and connections",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_server.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp", NET + "internal/cyn_tcp_server_work_thread.cpp"], [("shutdown commands to master and work threads", NET + "cyn_tcp_server.cpp")],
     "stateful property-based testing over loopback plus generated schedules (controlled scheduler), resource-leak and termination oracle", SC, ["TcpServer::stop/join"])
prop("C17", "No peer can harm the server or other connections",
     "Whatever bytes, half-closes, resets, stalls or floods of connections peers produce at any time, including while the server is sending to them, the server process never crashes, terminates or blocks, and keeps serving every other connection correctly. A peer that resets costs only its own connection.",
     ["fault_sequences", "histories", "inputs"], "every sequence of abusive peer actions (reset, half-close, stall, connect-and-vanish, descriptor exhaustion) mixed with well-behaved peers",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_connection.cpp", NET + "internal/cyn_tcp_server_master_thread.cpp", CORE + "cyc_socket_api.cpp"], [("error handling of accept/read/write", NET + "cyn_tcp_connection.cpp")],
     "property-based fault injection with generated abusive peers beside a verified echo peer, AddressSanitizer", "Random histories over loopback.", ["process survival", "echo of well-behaved peer"])
prop("C18", "TcpClient connects, retries and disconnects as told",
     "A client reports each connection attempt's outcome through its connected callback exactly once, retries after the delay that callback returns and never when it returns 0, and eventually connects when the server appears. Data sent by the client arrives in order; a disconnect request at any moment (connecting, waiting to retry, connected) ends the connection or the retries and never crashes; one close callback follows each successful connection.",
     ["histories", "fault_sequences"], "every sequence of server availability (refused, late, closing, resetting), retry delays and calls from callbacks",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_client.cpp", NET + "cyn_tcp_connection.cpp"], [("non-blocking connect, retry timer", NET + "cyn_tcp_client.cpp")],
     "stateful property-based testing with a generated server script against a client life-cycle automaton, AddressSanitizer", "Random scripts over loopback.", ["TcpClient", "TcpClient::Listener"])
prop("C19", "Server custom messages reach exactly the addressed thread",
     "A message sent to the master thread or to a work thread of a running server is delivered exactly once, unmodified, to the matching listener callback, on that thread, in the order each sender sent it, regardless of connections being handled at the time.",
     ["schedules", "histories"], "every set of senders, target threads, packet sizes and concurrent connection traffic",
     "No network test exists in the repository.",
     [NET + "cyn_tcp_server.cpp", NET + "internal/cyn_tcp_server_work_thread.cpp", EV + "cye_work_thread.cpp"], [("custom packets routed through the work-thread queues", NET + "cyn_tcp_server.cpp")],
     "property-based testing with generated senders and schedules against a per-sender history oracle", SC, ["TcpServer::send_master_message/send_work_message"])
prop("C20", "Address values are consistent",
     "An address built from text and port, from a socket address, or from a socket reports that ip and port and the same printed form. Equality holds iff ip and port are equal, ordering is a strict total order consistent with it, and hash values are equal for equal addresses and spread over different ones. Addresses taken from a connected pair of sockets match each other's view, and no address depends on what its memory held before.",
     ["inputs"], "every IPv4 address and port, every constructor",
     "No test covers addresses.",
     [NET + "cyn_address.cpp", NET + "cyn_address.h", CORE + "cyc_socket_api.cpp"], [("sockaddr_in conversions", CORE + "cyc_socket_api.cpp")],
     "property-based testing against inet_pton/inet_ntop reference", "Random addresses.", ["Address API"])
prop("C21", "Adler-32 matches its definition, incrementally",
     "The checksum of any byte string equals RFC 1950's Adler-32, and computing it in any number of pieces, including empty ones, by feeding back the running value gives the same result.",
     ["inputs"], "every byte string and every split",
     "Tests check a few strings in one piece.",
     [CR + "cyr_adler32.cpp"], [("deferred modulo in blocks", CR + "cyr_adler32.cpp")],
     "property-based differential testing against a byte-wise reference; coverage-guided fuzzing in the thorough tier", "Random strings.", ["adler32"])
prop("C22", "AES-128-CBC is correct and streamable",
     "Encryption equals standard AES-128 in CBC mode for every key, IV and message of whole blocks, and decryption is its inverse. Processing a message in consecutive pieces (of whole blocks) gives the same result as at once; in-place operation works, and the two directions of one object do not disturb each other.",
     ["inputs", "histories"], "every key, IV, message and split, any mix of encrypt/decrypt calls and IV changes",
     "Tests check a few vectors in one piece.",
     [CR + "cyr_rijndael.cpp", CR + "cyr_rijndael.h"], [("T-table rounds, chained IV state", CR + "cyr_rijndael.cpp")],
     "property-based differential testing against an independent FIPS-197 implementation", "Random keys, messages and splits.", ["Rijndael::encrypt/decrypt"])
prop("C23", "Diffie-Hellman partners derive the same secret",
     "For any two private keys both partners derive the same shared secret, equal to g^(ab) modulo the documented prime, and public keys equal g^a modulo that prime. Key generation is valid for every seed.",
     ["inputs"], "every pair of 128-bit private keys",
     "Tests use a few random pairs and only compare both sides with each other.",
     [CR + "cyr_dhexchange.cpp"], [("modular multiplication and exponentiation on 128-bit words", CR + "cyr_dhexchange.cpp")],
     "property-based differential testing against an independent big-integer implementation", "Random and edge-case keys.", ["DH_generate_key_pair", "DH_generate_key_secret"])
prop("C24", "xorshift128 generates its documented sequence",
     "From equal seeds two generators produce equal sequences, equal to the xorshift128+ recurrence for that state. The stream cipher XORs a buffer of any length and alignment with the little-endian bytes of that sequence, so applying it again with the same seed restores the data, and it touches nothing outside the buffer. make() draws all 128 bits of the state afresh, whatever the state was.",
     ["inputs", "histories"], "every seed and sequence length",
     "Tests compare one fixed sequence.",
     [CR + "cyr_xorshift128.cpp", CR + "cyr_xorshift128.h"], [("recurrence", CR + "cyr_xorshift128.cpp")],
     "property-based differential testing against a reference recurrence", "Random seeds.", ["XorShift128"])
prop("C25", "RingQueue is a bounded or growing FIFO",
     "A ring queue returns pushed elements in order, exactly once; it grows without bound, or when given a fixed capacity drops its oldest element to accept a new one. Sizes, emptiness, fullness, front/back and traversal agree with a reference queue for every sequence of operations, and each element's copies are balanced so that no element is leaked, doubly destroyed or used after destruction, even when a queue's own element is pushed.",
     ["inputs", "histories"], "every operation sequence, capacity and element type",
     "Tests use integers and one pattern.",
     [UT + "cyu_ring_queue.h"], [("circular array", UT + "cyu_ring_queue.h")],
     "stateful property-based testing against std::deque with instrumented elements, AddressSanitizer", "Random histories.", ["RingQueue"])
prop("C26", "Statistics report the values of their window",
     "Period statistics report exactly the sum and count of the values pushed within the last period, and min/max statistics exactly the extremes of the values fed since creation, for any sequence of values and non-decreasing times, also when several threads feed them at once.",
     ["inputs", "histories", "schedules"], "every sequence of values and arrival times",
     "Tests push a few values with sleeps.",
     [UT + "cyu_statistics.h"], [("ring queue of time-stamped values; CAS updates of min/max", UT + "cyu_statistics.h")],
     "property-based testing against a reference window model", "Random histories.", ["PeriodValue", "MinMaxValue"])
prop("C27", "Command-line options parse by the documented rules",
     "Every argument vector is parsed as documented: each declared option is reported once per occurrence in order with its argument in every accepted form (separate, '=' combined, optional, multi), unknown or incomplete options are reported as errors, remaining arguments are reported as files, in the given order, and nothing outside the vector is read.",
     ["inputs"], "every argument vector over a table of options and flags",
     "No test covers option parsing.",
     [UT + "cyu_simple_opt.h"], [("in-place shuffling of the argument vector", UT + "cyu_simple_opt.h")],
     "property-based testing against a reference parser, AddressSanitizer", "Random argument vectors.", ["CSimpleOpt"])
prop("C28", "Logger writes each message once, whole",
     "Each message at or above the set level is appended exactly once to the current log file, as one whole record unmixed with others, with its time, level and thread name, and is mirrored to standard output, or to standard error for errors; each thread's records keep their order. Messages below the level are not written. This holds for any number of logging threads and any message content and length, also while the file or level is being changed. Until a file is chosen the log is a file in ./logs named after the program, the time, the host and the process, whatever these names are.",
     ["inputs", "schedules"], "every message, level and set of logging threads",
     "No test reads the log back.",
     [CORE + "cyc_logger.cpp", CORE + "cyc_logger.h"], [("one lock around formatting and output", CORE + "cyc_logger.cpp")],
     "property-based testing with generated messages and threads, log re-parsing oracle, AddressSanitizer", "Random messages.", ["disk_log"])
prop("C29", "SOCKS5 proxy relays faithfully",
     "The SOCKS5 sample proxy performs the handshake and connect request exactly as RFC 1928 (no authentication, IPv4 and domain names) however the client's bytes are cut, and then relays both directions unchanged until either side closes, when the other is closed too. Malformed or hostile handshakes and unreachable targets cost only that client's connection.",
     ["inputs", "histories", "fault_sequences"], "every byte chunking of valid and invalid handshakes, any number of clients and targets",
     "No test covers the samples.",
     ["samples/socks5/s5_main.cpp", "samples/socks5/s5_protocol.cpp"], [("handshake state machine", "samples/socks5/s5_protocol.cpp")],
     "property-based and fuzz testing of the sample process (ASan) with generated handshakes, target scripts and a byte-stream oracle", "Random histories over loopback.", ["proxy sockets"])
prop("C30", "Relay tunnel carries sessions faithfully",
     "Through a relay-local/relay-server pair every client session exchanges with the up-server exactly the bytes each side sent, in order, with or without encryption, while other sessions come and go; what was sent before a close still arrives. The end of one side of a session (also an up-server that refuses the connection) ends the other side and only that session; when a relay process or the tunnel dies its sessions end. With encryption no client byte travels readable between the relays. Malformed or hostile peers of the relay server's port cost only their own connection.",
     ["inputs", "histories", "fault_sequences"], "every set of concurrent sessions, traffic patterns, close orders, both encryption modes",
     "No test covers the samples.",
     ["samples/relay/relay_local.cpp", "samples/relay/relay_server.cpp", "samples/relay/relay_protocol.h", "samples/relay/relay_pipe.cpp"], [("session multiplexing packets", "samples/relay/relay_protocol.h")],
     "property-based testing of the sample processes (ASan) with generated sessions and a byte-stream oracle", "Random histories over loopback.", ["client and up-server sockets"])
prop("C31", "File transfer reproduces the file",
     "The file-transfer sample reproduces the served file byte for byte at the client, for every file size and number of transfer threads. As long as its server is reachable a client ends with the complete file, or with an error and without it: content that was damaged, cut short or never arrived is never reported as success, and nothing is written outside the client's directory. The server answers every valid request on an idle thread with exactly those bytes and their checksum, refuses requests outside the file, and survives malformed input; hostile peers on either side cannot crash either program.",
     ["inputs", "configurations"], "every file size and content, thread count, chunking, and fault of the other side",
     "No test covers the samples.",
     ["samples/filetransfer/ft_client.cpp", "samples/filetransfer/ft_server.cpp", "samples/filetransfer/ft_common.h"], [("fragment requests and reassembly", "samples/filetransfer/ft_client.cpp")],
     "property-based testing of the sample processes (ASan) with generated files and differential comparison", "Random files over loopback.", ["output file"])
prop("C32", "Chat and echo samples serve every client",
     "The chat server forwards every complete packet a client sends, whole, unchanged and once, in the order of its sender, to every client connected at that time (the sender included); clients that leave, read slowly, reset or send malformed input do not disturb the others. The echo server returns every byte a client sends, with letters in upper case, complete and in order, whatever the sizes, contents and other clients; a lone exit closes that connection and a lone shutdown stops the server.",
     ["inputs", "histories"], "every set of clients, message contents, chunkings, arrivals, departures and malformed packets",
     "No test covers the samples.",
     ["samples/chat/chat_server.cpp", "samples/chat/chat_message.h", "samples/echo/echo_server.cpp"], [("packet broadcast over the work threads", "samples/chat/chat_server.cpp")],
     "property-based testing of the sample processes (ASan) with generated clients against a delivery model", "Random histories over loopback.", ["client sockets"])
prop("C33", "Socket helpers do what they name",
     "Every socket helper has exactly the effect it names on exactly the socket it is given, and its result says whether it had it: an option setter changes that option and no other and fails for a socket that has no such option; bind, listen, connect, accept, shutdown and the name queries agree with the kernel and fail where it fails; streams and datagrams pass unchanged, datagrams whole and with their sender's address. Address text converts to and from binary exactly, malformed text is refused, and network byte order is big-endian. check_connect is true exactly for an address that accepts a connection within the time given, whatever the number of open descriptors and whatever signals arrive, makes one connection, keeps its time limit, and leaves nothing open.",
     ["inputs", "histories", "environment"], "every option sequence, address, text, datagram, descriptor number, signal time and kind of failing socket",
     "Tests resolve two names; no other helper is tested directly, failures and results never.",
     ["source/cyCore/core/cyc_socket_api.cpp", "source/cyCore/core/cyc_socket_api.h"], [("system call wrappers of the whole library", "source/cyCore/core/cyc_socket_api.cpp")],
     "property-based testing of generated call sequences against the kernel's own answers (differential)", "Random histories over loopback.", ["socket state through getsockopt/fcntl"])
prop("C34", "Clocks, names and sizes are right",
     "performance_time_now returns the microseconds since its first call by a clock nobody can set, never going back, and utc_time_now those since the Epoch, for every value of the system clocks; local_time_now writes the local time by the format given and never beyond the buffer; thread_sleep lasts at least the time asked, whatever signals arrive. process_get_module_name writes the program's file name, cut to the buffer and terminated, wherever the program lies. size_to_string prints two decimals of the largest unit that fits.",
     ["inputs", "environment"], "every clock value and sequence of them, time zone, format, buffer size, path, name and size",
     "Tests look at one elapsed time and one sleep.",
     ["source/cyCore/core/cyc_system_api.cpp", "source/cyUtility/utility/cyu_string_util.cpp"], [("clock arithmetic and name handling", "source/cyCore/core/cyc_system_api.cpp")],
     "property-based testing with generated clocks, zones, paths and sizes against reference formulas", "Random cases; the clocks are replaced inside the process.", ["returned values"])
prop("C35", "Connection statistics are exact",
     "Once started, the read statistics of a connection are exactly the bytes it received since and the number of reads that brought them, and its write statistics the bytes the kernel accepted: equal to everything sent whenever a send completes, never less than the peer received or more than was sent, also when transfers are short, would block or fail and when the peer leaves. Statistics that were not started read zero, starting them twice changes nothing, and the recorded largest buffer sizes are the largest that occurred.",
     ["inputs", "histories", "schedules"], "every sequence of sends and receives, transfer sizes, faults and start times",
     "No test starts the statistics.",
     ["source/cyNetwork/network/cyn_tcp_connection.cpp", "source/cyUtility/utility/cyu_statistics.h"], [("counting in the read and write paths", "source/cyNetwork/network/cyn_tcp_connection.cpp")],
     "property-based testing of generated loopback histories with injected short and failing transfers, byte-count model", "Random histories over loopback.", ["reported sums and counts"])

prop("C36", "chat-client and echo-client show what arrives and send what is typed",
     "Whatever the server sends and however it is segmented, chat-client shows the content of every complete packet (0 to 65535 bytes) once and in order, and echo-client every received byte in order; every typed line of 1 to 255 characters reaches the server once and in order (as one packet with id 0, or as the bare text). Nothing a server sends makes them abort or access memory out of bounds. A refused connection is tried again, and the client ends with status 0 when the server closes or resets the connection and at the end of its input, after everything typed was sent.",
     ["inputs", "histories"], "every byte stream a server can send, every way it is cut into segments, every sequence of typed lines, every moment either side ends",
     "No test runs the clients.",
     ["samples/chat/chat_client.cpp", "samples/echo/echo_client.cpp", "source/cyNetwork/network/cyn_tcp_client.cpp", "source/cyEvent/event/cye_packet.cpp"], [("message callback and input loop", "samples/chat/chat_client.cpp"), ("message callback and input loop", "samples/echo/echo_client.cpp")],
     "property-based testing and fuzzing of the built client programs against a generated server (ASan), transcript oracle", "Random server streams, cuts, typed lines and endings.", ["standard output of the clients", "bytes on the wire", "exit status"])

prop("C37", "What is created and destroyed leaves nothing behind",
     "Creating, using and destroying the library's objects gives everything back: ring buffers, packets, queues, pipes, locks, joined and detached threads, loopers with the timers and events still on them, work threads with messages still pending, servers with their connections, clients that connect, fail, retry or are released. However often the same program is repeated, the number of live allocations, descriptors and threads of the process does not keep growing, also when the looper, work thread or server it uses stays and only connections, events, timers and messages come and go.",
     ["histories", "inputs"], "every program of creations, uses and destructions, however often repeated",
     "Tests create a few objects once and do not look at what is left.",
     ["source/cyCore", "source/cyEvent", "source/cyNetwork", "source/cyUtility"], [("timers and messages at the end of a looper or work thread", "source/cyEvent/event/cye_looper.cpp"), ("connection objects", "source/cyNetwork/network/cyn_tcp_connection.cpp"), ("packet memory", "source/cyEvent/event/cye_packet.cpp")],
     "property-based testing of generated programs under a metamorphic relation (repeating a program must not raise the live allocations, descriptors or threads again and again), counted by allocation hooks", "Random programs, each repeated 6 to 192 times.", ["live allocations", "open descriptors", "threads"])

PENDING = "its check is not built yet"
NA = {}

def main():
    ids = [p["id"] for p in P]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]}
                    for p in P if p["id"] in CHECKS],
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], PENDING)} for p in P if p["id"] not in CHECKS],
         "notes": "No hooks in /repo: everything observes public behaviour; see DESIGN.md. Generated by tools/props.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
    import design
    design.main()
