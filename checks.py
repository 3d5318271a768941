# property -> list of harness programs: (name, flavor, sources, options)
WRAP = {"link": ["-Wl,--wrap=" + x for x in ("write", "writev", "read", "readv", "send", "recv")]}
WRAPC = {"link": ["-Wl,--wrap=" + x for x in ("connect", "socket", "write", "writev")]}
CHECKS = {
    "C01": [("p_ringbuf_mem", "asan", ["p_ringbuf_mem.cpp"], {})],
    "C02": [("p_ringbuf_sock", "asan", ["p_ringbuf_sock.cpp"], {}), ("p_ringbuf_sock_noreadv", "select", ["p_ringbuf_sock.cpp"], {})],
    "C03": [("p_lfqueue_seq", "asan", ["p_lfqueue_seq.cpp"], {}), ("p_lfqueue_mt", "sched", ["p_lfqueue_mt.cpp"], {})],
    "C04": [("p_packet", "asan", ["p_packet.cpp"], {})],
    "C05": [("p_pipe", "asan", ["p_pipe.cpp"], {}), ("p_pipe_nopipe2", "select", ["p_pipe.cpp"], {})],
    "C06": [("p_workthread_mt", "sched", ["p_workthread.cpp"], {"flags": ["-DSCHED"]}), ("p_workthread", "asan", ["p_workthread.cpp"], {})],
    "C07": [("p_looper", "asan", ["p_looper.cpp"], {}), ("p_looper_select", "select", ["p_looper.cpp"], {})],
    "C08": [("p_looper_cb", "asan", ["p_looper.cpp"], {"flags": ["-DIN_CALLBACK"]}), ("p_looper_cb_select", "select", ["p_looper.cpp"], {"flags": ["-DIN_CALLBACK"]})],
    "C09": [("p_timer", "asan", ["p_timer.cpp"], {}), ("p_timer_select", "select", ["p_timer.cpp"], {})],
    "C10": [("p_stop_mt", "sched", ["p_stop.cpp"], {"flags": ["-DSCHED"]}), ("p_stop", "asan", ["p_stop.cpp"], {})],
    "C11": [("p_sync_mt", "sched", ["p_sync.cpp"], {"flags": ["-DSCHED"]}), ("p_sync", "asan", ["p_sync.cpp"], {}), ("p_sync_notimedlock", "select", ["p_sync.cpp"], {})],
    "C12": [("p_net_stream", "asan", ["p_net_stream.cpp"], WRAP), ("p_net_stream_select", "select", ["p_net_stream.cpp"], WRAP)],
    "C13": [("p_net_send_mt", "sched", ["p_net_conn.cpp"], dict(WRAP, flags=["-DSCHED"])), ("p_net_send", "asan", ["p_net_conn.cpp"], WRAP)],
    "C14": [("p_net_life_mt", "sched", ["p_net_life.cpp"], {"flags": ["-DSCHED"]}), ("p_net_life", "asan", ["p_net_life.cpp"], {}), ("p_net_life_select", "select", ["p_net_life.cpp"], {})],
    "C15": [("p_net_shutdown_mt", "sched", ["p_net_conn.cpp"], dict(WRAP, flags=["-DSCHED", "-DSHUTDOWN"])), ("p_net_shutdown", "asan", ["p_net_conn.cpp"], dict(WRAP, flags=["-DSHUTDOWN"]))],
    "C16": [("p_net_stop_mt", "sched", ["p_net_life.cpp"], {"flags": ["-DSCHED", "-DSTOP"]}), ("p_net_stop", "asan", ["p_net_life.cpp"], {"flags": ["-DSTOP"]}), ("p_net_stop_select", "select", ["p_net_life.cpp"], {"flags": ["-DSTOP"]})],
    "C17": [("p_net_abuse", "asan", ["p_net_abuse.cpp"], {}), ("p_net_abuse_select", "select", ["p_net_abuse.cpp"], {})],
    "C18": [("p_net_client", "asan", ["p_net_client.cpp"], WRAPC), ("p_net_client_select", "select", ["p_net_client.cpp"], WRAPC)],
    "C19": [("p_net_cmd_mt", "sched", ["p_net_cmd.cpp"], {"flags": ["-DSCHED"]}), ("p_net_cmd", "asan", ["p_net_cmd.cpp"], {})],
    "C20": [("p_address", "asan", ["p_address.cpp"], {})],
    "C21": [("p_adler", "asan", ["p_adler.cpp"], {})],
    "C22": [("p_aes", "asan", ["p_aes.cpp"], {})],
    "C23": [("p_dh", "asan", ["p_dh.cpp"], {})],
    "C24": [("p_xorshift", "asan", ["p_xorshift.cpp"], {})],
    "C25": [("p_ringqueue", "asan", ["p_ringqueue.cpp"], {})],
    "C26": [("p_statistics", "asan", ["p_statistics.cpp"], {}), ("p_statistics_mt", "sched", ["p_statistics_mt.cpp"], {})],
    "C27": [("p_simpleopt", "asan", ["p_simpleopt.cpp"], {})],
    "C28": [("p_logger", "asan", ["p_logger.cpp"], {}), ("p_logger_mt", "sched", ["p_logger.cpp"], {"flags": ["-DSCHED"]})],
    "C29": [("p_socks5", "asan", ["p_socks5.cpp"], {"targets": ["socks5"]})],
    "C30": [("p_relay", "asan", ["p_relay.cpp"], {"targets": ["relay_local", "relay_server"]})],
    "C31": [("p_ft", "asan", ["p_ft.cpp"], {"targets": ["ft-server", "ft-client"], "inc": ["samples/filetransfer"]})],
    "C32": [("p_chat", "asan", ["p_chat.cpp"], {"targets": ["echo-server", "chat-server"]})],
    "C33": [("p_sockapi", "asan", ["p_sockapi.cpp"], {})],
    "C34": [("p_sysinfo", "asan", ["p_sysinfo.cpp"], {})],
    "C37": [("p_leak", "asan", ["p_leak.cpp"], {}), ("p_leak_select", "select", ["p_leak.cpp"], {})],
    "C36": [("p_cli", "asan", ["p_cli.cpp"], {"targets": ["chat-client", "echo-client"]})],
    "C35": [("p_net_stats", "asan", ["p_net_stats.cpp"], WRAP)],
}
