#!/usr/bin/env python3
"""DESIGN.md from tools/design.md.in, the property list, KNOWN_FINDINGS.jsonl and tools/seeds.json (run by props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
HOW = {
"C01": ("p_ringbuf_mem", "Random operation sequences on one or two buffers, sizes around 0, the free space and the capacity, compared with a std::deque after every step (whole content periodically); huge counts and offsets included. ASan guards the storage."),
"C02": ("p_ringbuf_sock", "Histories of read_socket/write_socket between buffers and real socket pairs (small SO_SNDBUF, peers that close or reset), byte-stream model on both sides; also built without readv/writev."),
"C03": ("p_lfqueue_seq, p_lfqueue_mt", "Sequential model check for many element types and sizes; under the scheduler 2-5 threads push/pop on queues of 1..8 slots, and the recorded history (with event clock) must be explained by a bounded FIFO: every element out once, order respected, refusals justified by an instant of full/empty."),
"C04": ("p_packet", "Packet lists encoded by an independent encoder, cut at generated points (all cut points around headers), fed to every build_* source; clean/copy/rebuild in between."),
"C05": ("p_pipe", "Reads and writes of any size against a byte queue model, on pipe2 and on the fallback; non-blocking is verified by the case watchdog."),
"C06": ("p_workthread (sched and real threads)", "1-4 senders, sends before the start, from the callback, all send variants; each message carries an id and random content. Stuck = messages pending while everybody is idle."),
"C07": ("p_looper", "Model of registrations and interest; before each round poll(2) is asked what is ready; the round must call exactly the matching callbacks, in loop() mode every ready event within a bounded number of rounds. Both back ends, up to 45 descriptors, some above FD_SETSIZE."),
"C08": ("p_looper -DIN_CALLBACK", "The same model with registration programs executed inside callbacks (including deleting itself, deleting others of the round, registering until the table grows)."),
"C09": ("p_timer", "Timer programs (1..2000 ms; add, delete, disable, enable, stall from callbacks); hard bounds: never early, never after deletion or while disabled, never more often than elapsed/period; soft: every due tick served by the next round, counts over a loop() window."),
"C10": ("p_stop (sched and real threads)", "Generated stop requests from several threads against loop entry, waits, callbacks and exit; stuck detection and use-after-free detection by the never-reusing allocator."),
"C11": ("p_sync (sched and real threads)", "Notify/wait/timed-wait histories checked for linearizability as a two-state event; handshakes count releases; mutex histories check overlap and that refused try_locks overlap an owner; threads with joins, timed joins, detached ones."),
"C12": ("p_net_stream", "1-6 raw peers against a server with 1-3 ports and 1-4 work threads: generated volumes, block sizes, burst patterns from callbacks or another thread, pacing, socket buffers and injected short transfers / EAGAIN (link-time wrappers around the I/O calls); every byte is a function of its position, checked on both sides."),
"C13": ("p_net_conn", "One connection on its own looper thread, 1-4 sending threads, sends from message and send-complete callbacks, injected short writes and EAGAIN; blocks carry (sender, index): the peer's stream must be a sequence of whole blocks, per sender in order, none missing. Once under the scheduler (preemption at every access), once free-running under ASan."),
"C14": ("p_net_life", "0-8 raw peers (send, read, half-close, close, reset, connect late) against a server whose callbacks follow generated scripts (send, shutdown, shutdown_connection, rename, keep a reference), with 0-2 external threads sending and shutting down: every callback is checked against a per-connection automaton (connected, messages with new input, one close, nothing after), its thread, looper, id, addresses, name, parameter and state. Scheduler variant with up to 3 peers; select() back end too."),
"C16": ("p_net_life -DSTOP", "The same histories with stop() at a generated moment (also refused stops inside callbacks, a second stop, peers connecting while it stops): join returns within 10 s of peers draining, connected and close callbacks match, ports refuse, every peer's connection ends, descriptors and threads are back to what they were. Under the scheduler: deadlocks and use of freed memory in every interleaving explored."),
"C17": ("p_net_abuse", "Programs of abusive peer actions (garbage, half-close, reset, connect-and-vanish, floods, unread echoes piling up, descriptor exhaustion through RLIMIT_NOFILE) against a server that greets, pushes from another thread and shuts peers down, beside 1-2 peers whose echo is verified byte for byte throughout and a new one at the end; SIGPIPE keeps its default action in the harness; crash, wrong or missing echo, or a connection not closed is a failure. epoll and select."),
"C18": ("p_net_client", "1-3 clients on one looper whose rounds the harness drives; each has a scripted server (listening, refusing, closing, half-closing, resetting, an immediate connect() failure and a failing first write injected by link-time wrappers) and scripted acts inside its callbacks (send, disconnect, reconnect, release); every connect() call of the library is seen by the wrapper: a model says whether an attempt is allowed now (asked for, or the delay is over), which report must follow, that connected/close callbacks alternate, that both byte streams are positional; at the end servers appear and everybody must connect, bytes sent before disconnect() arrive, cancelled retries stay cancelled, descriptors are back."),
"C19": ("p_net_cmd", "1-4 sender threads address messages of 4-65000 bytes (all overloads, arrays) to the master and work threads, some forwarded by the receiver to another thread, beside echoing connections: content carries (sender, index); exactly once, unmodified, right thread, per-sender order. Scheduler and free-running variants."),
"C15": ("p_net_conn -DSHUTDOWN", "The same programs ended by shutdown() from a message / send-complete / timer callback or right away, or by the peer closing or resetting: every block whose send() returned before the shutdown arrives, nothing is cut before an orderly end, exactly one close callback, later sends from any thread are harmless."),
"C20": ("p_address", "Random and edge addresses against inet_pton/inet_ntop; sockets over loopback and unconnected ones."),
"C21": ("p_adler", "Byte strings (long runs of 0xff around the deferral limit) against a byte-wise reference, in generated splits."),
"C22": ("p_aes", "Independent FIPS-197 implementation; generated keys, IVs, splits, in-place and interleaved directions."),
"C23": ("p_dh", "Independent big-number arithmetic; edge keys (0, 1, p-1, p, all ones)."),
"C24": ("p_xorshift", "Reference recurrence; stream cipher on any length and alignment with guard bytes."),
"C25": ("p_ringqueue", "Model check with instrumented elements that count constructions/destructions."),
"C26": ("p_statistics, p_statistics_mt", "Window model with injected times; MinMax fed by several threads under the scheduler."),
"C27": ("p_simpleopt", "Random option tables and argument vectors against a reference parser."),
"C29": ("p_socks5", "The real sample program (ASan build, started per case on a port of its own) with 1-3 threads, one witness session and 1-6 scripted ones: valid ones by address or name, refused and immediately failing targets, nine kinds of malformed handshakes/requests, truncated ones, clients leaving while the proxy connects (full backlog); every message cut at generated points. Positional byte streams both ways with stalled readers and small windows; eight ways of ending. A strong ending (the ender has received everything) must deliver every byte sent before; any ending must end the other side; replies are compared with RFC 1928; the process must stay alive and end with the descriptors it started with."),
"C30": ("p_relay", "relay_local and relay_server as child processes (ASan build) with a recording proxy between them that may re-cut the tunnel's bytes; 1-7 scripted client sessions with their up-server ends (generated volumes in both directions, piece sizes, slow readers, half-closes, resets, refused targets), hostile peers speaking malformed or out-of-order relay packets at the server's port, and a finale that kills the tunnel or a relay. Byte-stream oracle per session, a marker searched for in the tunnel's bytes under -e, session ends, process survival. relay_pipe (a plain two-port pipe) is left out."),
"C31": ("p_ft", "server: 1-6 scripted clients (information, fragments of any offset and length, invalid requests, junk, silent and leaving peers, byte-wise sends, slow readers) against the real ft-server, every byte and checksum compared, a client alone must get through at the end, descriptors return. client: the real ft-client against a scripted server with 16 kinds of faults (wrong checksum, changed byte, early end, wrong begin/end, bad information, obstacles in the file system, names with directories); exit code, files and their places checked, in nested scratch directories and never with absolute names. transfer: both real programs, one or several clients, hostile peers beside them. Files of 2 GB and more are not tried."),
"C32": ("p_chat", "echo: 1-6 clients with generated text or binary content, piece sizes around the 255-byte buffer, stalls, early departures, exit and shutdown commands (also while others are busy) against the real echo-server. chat: 1-5 clients plus late ones and leavers with generated packets (sizes 0-64 K, cut into pieces, slow readers with small buffers) and malformed peers against the real chat-server; every received packet carries sender, number and a checksum, so loss, duplication, damage and reordering show."),
"C33": ("p_sockapi", "Sequences of option setters on TCP and UDP sockets, closed descriptors and pipes, all options read back with getsockopt/fcntl after every call; datagram histories between 2-4 sockets; connection histories (refused, non-blocking, shut down, address in use) with position-addressed streams; address texts valid and mutated, against a strict parser; check_connect against listening, refusing, never answering and invalid addresses, with up to 2000 descriptors open, none left, and a signal every few milliseconds."),
"C34": ("p_sysinfo", "clock_gettime, gettimeofday and time are defined by the harness, so that every reading in the process is generated (each read moves the clock on): results must lie between the first and the last reading of the call. Each case is a fresh process (the first call sets the base). Six time zones, generated formats and exact-size heap buffers (ASan) for local_time_now; sleeps under a periodic signal; the program linked under generated paths (up to 3000 bytes) and names and executed; sizes parsed back."),
"C35": ("p_net_stats", "1-5 connections with generated sizes, blocks, pacing and socket buffers; statistics started at connect, at a later message, twice or never; peers that read all or leave (close or reset) after any number of bytes; injected short and would-block transfers. Sums, counts and maxima are compared with the byte positions of the harness at every message, completed send and close."),
"C36": ("p_cli", "The client programs are built with ASan and run with a typed input held by the harness, against a server of the harness that sends generated packets (sizes 0 to 65535, control bytes, truncated and oversized headers), in generated cuts and pauses, refuses the first connections, closes or resets. Standard output, the bytes that reach the server and the exit status are compared with what was sent and typed."),
"C37": ("p_leak", "A program of 1 to 6 operations on 12 kinds of objects is generated and repeated with the same parameters; live blocks and bytes (hooks of the ASan allocator), descriptors and threads are read at rest after 3, 6, 12, 24 and 48 runs (bytes alone: up to 192, because containers keep room for later). What grows by at least half a unit per run in every interval was never given back. Epoll and select loopers."),
"C28": ("p_logger", "Generated messages, levels and threads; the log and both standard streams are parsed back. default_file: the harness program is executed under generated program and host names (gethostname is defined by the harness) and the file it makes by default is checked, name and content."),
}
def main():
    import props
    t = open(os.path.join(V, "tools", "design.md.in")).read()
    out = ["## Properties\n"]
    for p in props.P:
        h = HOW.get(p["id"])
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("*Quantified over*: %s. *Why tests cannot*: %s\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
        if h and p["id"] in props.CHECKS:
            from checks import CHECKS
            out.append("*Decided by* %s (%s): %s %s\n" % (h[0], ", ".join(sorted(set(x[1] for x in CHECKS[p["id"]]))), h[1], props.P and p["_note"]))
        else:
            out.append("*Decided by*: " + (h[1] if h else p["_tech"]) + "\n")
    t = t.replace("@@PROPS@@", "\n".join(out))
    f = []
    for l in open(os.path.join(V, "KNOWN_FINDINGS.jsonl")):
        j = json.loads(l)
        f.append("* %s %s" % (j["property"], ("repaired in %s: %s" % (j["commit"], j["subject"][5:])) if j["status"] == "fixed" else "KNOWN, not repaired: " + j["what"] + " (" + j.get("why", j.get("where", "")) + ")"))
    t = t.replace("@@FINDINGS@@", "\n".join(f))
    sp = os.path.join(V, "tools", "seeds.json")
    rows = []
    if os.path.exists(sp):
        res = json.load(open(sp))
        rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
        for i in sorted(res):
            m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
            rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res[i].replace("|", "/")))
    t = t.replace("@@SEEDS@@", "\n".join(rows))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)
