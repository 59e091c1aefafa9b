#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the wording is reviewed in one place).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(obs),"hook_needed":hook}})
S="src/server.c";O="src/server-obj.c";K="src/server-sock.c";E="src/server-esc.c";T="src/server-telnet.c"
L="src/server-logfile.c";U="src/server-unixsock.c";PR="src/server-process.c";SE="src/server-serial.c";TP="src/tpoll.c";IP="src/server-ipmi.c"
TESTS="The 14 stable tests only start conmand and run -q/-V style commands against it once each; "

p("C01","Console output reaches every attached session complete and in order",
 "Every byte a console outputs while a reading session (interactive or monitor) is attached is delivered to that session exactly once, unmodified and in order, for every console type and every byte value, provided the session keeps reading. The only other bytes the session receives are whole informational messages, framed by the documented prefix and suffix.",
 ["schedules","inputs","fault_sequences","histories"],
 "all interleavings of console output chunks, session arrivals and departures, short reads and writes, EINTR/EAGAIN results and network delays, over telnet, Unix-socket, serial, process and IPMI consoles",
 TESTS+"none passes a single byte of console output through the daemon.",
 [O,S,K,TP],[("read_from_obj copies to every reader","src/server-obj.c:read_from_obj"),("circular buffer","src/server-obj.c:write_obj_data"),("partial write accounting","src/server-obj.c:write_to_obj"),("I/O multiplexing loop","src/server.c:mux_io")],
 [("buf/bufInPtr/bufOutPtr","per-object ring","src/server.h:base_obj"),("readers/writers","who receives what","src/server.h:base_obj")],
 ["bytes written by the device vs bytes read by the session"])
p("C02","Console logs record the exact console output",
 "While the daemon is running with its log files writable, the log of each console holds exactly the bytes that console output since the log was opened, in order, with none lost, duplicated, altered or taken from another console, apart from whole informational lines added by the daemon. This holds whether or not any session is attached.",
 ["schedules","inputs","fault_sequences"],
 "all chunkings of the output, short/interrupted log writes, concurrent consoles, sessions coming and going",
 TESTS+"no test reads back a console log.",
 [O,L,S],[("log object is one of the console's readers","src/server-obj.c:read_from_obj"),("write_log_data","src/server-logfile.c:write_log_data")],
 [("readers","console's logfile object","src/server.h:base_obj")],["log file content in the (simulated) file system"])
p("C03","Session input reaches the right consoles exactly once and in order",
 "Every data byte (all 256 values, with the protocol escape properly doubled) that a session with write access sends is delivered to each console that session is connected to, exactly once and in order, and to no other console; a broadcast session's input reaches every one of its consoles. Escape commands are consumed by the daemon and never leak to a console, however the input is split across reads.",
 ["schedules","inputs","fault_sequences"],
 "all byte sequences including escape sequences split at any point, with any network segmentation, one to many target consoles, devices that accept slowly",
 TESTS+"no test sends session input.",
 [E,O,K],[("process_client_escapes","src/server-esc.c"),("read_from_obj","src/server-obj.c")],
 [("gotEscape","escape seen at the end of the previous read","src/server.h:client_obj")],["bytes read by the device vs bytes sent by the session"])
p("C04","Unshared write access is exclusive",
 "A session that asks for write access without force or join is refused as busy whenever another session holds write access to any requested console, so two such sessions never both write to one console, even when they arrive at the same moment. A forced session takes write access from all current holders, who are told by whom and then disconnected; a joined session shares it with them.",
 ["schedules","histories","configurations"],
 "all interleavings of concurrent connect, force, join, broadcast, read-only toggles and disconnects of many sessions",
 TESTS+"none has two sessions.",
 [K,O,E],[("check_busy_consoles","src/server-sock.c"),("link_objs force handling","src/server-obj.c:link_objs"),("perform_join/perform_monitor","src/server-esc.c")],
 [("writers","sessions holding write access","src/server.h:base_obj")],["response to CONNECT, bytes arriving at the device per session"])
p("C05","Read-only and write-only sessions stay one-way",
 "Input typed in a monitor session never reaches a console, including after any escape sequence that requires write access (break, reset), until that session explicitly gains write access by force or join. A broadcast session over several consoles never receives console output, and a session switched back to read-only stops writing at that point in its input stream.",
 ["inputs","schedules","histories"],
 "all sequences of data and escape commands in each session mode, arbitrarily segmented",
 TESTS+"none opens a session.",
 [E,O,K],[("mode is the presence of links","src/server-obj.c:link_objs,unlink_objs"),("escape dispatch","src/server-esc.c:process_client_escapes")],(),["bytes at the device, bytes at the session"])
p("C06","A slow or stalled session affects only itself",
 "A session, device or log that stops reading or never completes its handshake does not delay or alter delivery to any other session, console or log. A session that falls behind loses only oldest data in whole contiguous gaps: what it receives remains in order, is never duplicated or corrupted, and once it reads again it gets the most recent output (at least the last 8 KB of undelivered output).",
 ["schedules","fault_sequences"],
 "all patterns of stalls, zero windows and half-finished handshakes among many peers and any volume of output",
 TESTS+"no stalled peer is ever present.",
 [O,S,K],[("non-blocking sockets","src/util-file.c:set_fd_nonblocking"),("overwrite of the oldest data","src/server-obj.c:write_obj_data"),("handshake in a per-client thread","src/server.c:accept_client")],
 [("bufOutPtr","oldest retained byte","src/server.h:base_obj")],["delivery latency and content for the healthy peers"])
p("C07","No peer and no transient fault takes the daemon down",
 "No sequence of bytes, disconnects or resets by session peers or console devices, at any point of the protocol, and no transient resource failure (out of descriptors, failed thread creation, failed fork, failed name lookup, aborted or reset connections, interrupted system calls) makes the daemon exit, crash, access invalid memory, or stop serving its other sessions and consoles.",
 ["inputs","schedules","fault_sequences"],
 "all malformed or truncated requests, connection resets between any two steps, and failing system calls at any point after start-up",
 TESTS+"they exercise neither malformed input nor failing system calls.",
 [K,S,O,T,U,PR,"src/util-file.c","src/lex.c"],[("error paths return instead of exiting","src/server-sock.c:process_client"),("accept error handling","src/server.c:accept_client")],(),["daemon process state, a probe session after the faults"])
p("C08","A finished session is completely released",
 "When a session ends, for whatever reason and in whatever state (including suspended, stalled, mid-handshake or refused), or because its peer vanished without a word (noticed through TCP keep-alive, which is on by default), the daemon closes its connection, gives up its write access and frees its thread, descriptors and object within bounded time. After any history of sessions and device reconnections the daemon holds no more descriptors than its configuration needs, and consumes no CPU while idle.",
 ["histories","schedules","fault_sequences"],
 "all histories of session starts, ends, aborts and resets in every state",
 TESTS+"leaks accumulate over histories no test runs.",
 [O,K,S,TP],[("shutdown_obj/destroy_obj","src/server-obj.c"),("destroy_req on error paths","src/server-sock.c:process_client"),("gotEOF draining","src/server-obj.c:write_to_obj")],
 [("gotEOF","session is closing once drained","src/server.h:base_obj")],["descriptor table, thread count, busy answers, system-call rate when idle"])
p("C09","A lost console connection is re-established automatically",
 "Whenever a console's device becomes reachable again after any outage, refused, failed or hung connection attempt, the daemon reconnects to it without intervention within that device type's documented maximum retry interval, and output and input flow again. While a device stays unreachable, attempts are spaced by at least the type's minimum interval and back off exponentially up to the maximum, except that a new session (or a newly created socket file) triggers an immediate attempt; the back-off starts over once a connection has lasted. A network device that vanished without closing its connection is noticed through TCP keep-alive (on by default). There is never more than one connection to a console at a time, and never more than one running copy of a console program, even one that ignores polite requests to end. (Serial consoles are re-opened when a session is opened.)",
 ["schedules","fault_sequences","histories"],
 "all outage patterns (refuse, hang, reset, EOF, immediate exit, missing file, unresolvable host) of any length, for telnet, Unix-socket, process and IPMI consoles",
 TESTS+"backoff reaches 30 minutes and depends on when the device fails.",
 [T,U,PR,IP,"src/inevent.c",TP],[("connect/disconnect state machines and timers","src/server-telnet.c:connect_telnet_obj,disconnect_telnet_obj"),("exponential backoff","src/server-*.c"),("inotify trigger","src/inevent.c")],
 [("state/delay/timer","per-console connection state","src/server.h:telnet_obj,unixsock_obj,process_obj,ipmi_obj")],["connection attempts seen by the device, in simulated time"])
p("C10","Telnet framing is transparent and always terminates",
 "For a console reached by telnet, sessions and the log see exactly the device's data bytes: doubled 0xFF as one 0xFF, and no byte of any telnet command or option negotiation, wherever the stream is split and across reconnects. Session data is sent with each 0xFF doubled, and the daemon answers option requests so that negotiation never loops. On every connection it asks for binary transmission in both directions.",
 ["inputs","schedules","fault_sequences"],
 "all sequences of data, IAC commands and option requests, split at every byte and cut by disconnects at every byte",
 TESTS+"no telnet device is ever contacted.",
 [T,E],[("process_telnet_escapes","src/server-telnet.c"),("0xFF doubling on output","src/server-telnet.c, src/server-esc.c")],
 [("iac","position inside a telnet command","src/server.h:telnet_obj")],["bytes at the device, the session and the log"])
p("C11","Timestamped and sanitized logs are formatted per line, not per read",
 "With the sanitize option a console log contains only printable 7-bit characters and line ends, each input byte mapped independently of how the output was split into reads; with the timestamp option each output line is preceded by exactly one timestamp giving the time its first character arrived. The resulting text depends only on the output bytes and arrival times, and without these options bytes are logged verbatim.",
 ["inputs","schedules","configurations"],
 "all byte sequences, all splits (between CR and LF, at line starts), all option combinations, interleaved informational messages",
 TESTS+"no log content is examined.",
 [L],[("write_log_data / write_sanitized_log_data line state machine","src/server-logfile.c")],
 [("lineState","CR/LF state carried between reads","src/server.h:logfile_obj")],["log file content"])
p("C12","Re-opening logs on SIGHUP loses and duplicates nothing",
 "After SIGHUP, console output goes to the file now named by the re-evaluated log name, and the previous file keeps everything written before; concatenating the files in order gives the console output with no byte lost, duplicated or reordered, no matter when the signal arrives. Re-opening never truncates, does not disturb sessions or console connections, and a log that could not be opened before is resumed. The same holds for the daemon's own log, and for names with any conversion specifier.",
 ["schedules","crash_points","fault_sequences"],
 "all arrival points of one or many SIGHUPs relative to output, log writes and other activity, with files renamed or removed in between",
 TESTS+"no test rotates a log while output flows.",
 [S,L,O],[("reopen_logfiles","src/server.c"),("open_logfile_obj","src/server-logfile.c")],
 [("reconfig","pending SIGHUP","src/server.c")],["log files in the simulated file system"])
p("C13","Log replay shows exactly the latest logged output",
 "A replay request returns, between its begin and end markers, exactly the last 4 KB of the console's logged output (or all of it if less has been logged), in order and as logged, at whatever point in the log's history it is requested. The replay neither loses nor duplicates live output for the requesting session and is not seen by any other session.",
 ["histories","schedules","inputs"],
 "all output volumes (below, at and beyond buffer wrap), all replay instants, log re-opens and failures in between",
 TESTS+"none requests a replay.",
 [E,L,O],[("perform_log_replay","src/server-esc.c"),("log ring retained after writing","src/server-obj.c:write_to_obj")],
 [("gotBufWrap","ring has wrapped","src/server.h:base_obj")],["bytes between the replay markers"])
p("C14","A reset runs the configured command once per console and is bounded",
 "A reset request from a session with write access runs the configured command, with the console name substituted, exactly once for each of its consoles, without delaying other traffic; it is refused with a message while one is still running for that console, and nothing is run when no command is configured. A command still running after its time limit is killed together with its children; sessions without write access can never cause one to run.",
 ["schedules","histories","fault_sequences"],
 "all reset requests from any set of sessions, commands of any duration or failing to start, signals arriving at any point",
 TESTS+"no reset is ever requested.",
 [E,O],[("perform_reset, run_reset_cmd, kill timer","src/server-esc.c")],
 [("resetCmdPid/resetCmdTimer","reset in progress","src/server.h:base_obj")],["process creations and kill() calls seen by the simulated kernel"])
p("C15","A serial-break is delivered once, to the right consoles",
 "Each break request from a session with write access produces exactly one break indication, in the form native to each target console (telnet break command, hardware break, IPMI break, process break sequence), on each of the session's consoles that has such a form (a socket console has none) and on no others; on telnet and process consoles it arrives at its position among the data of the session. It never corrupts the surrounding data, and break requests from sessions without write access produce none.",
 ["inputs","schedules"],
 "all interleavings of data and break requests on every console type",
 TESTS+"no break is ever sent.",
 [E,T,SE,IP],[("perform_serial_break","src/server-esc.c")],(),["break indications received by the device"])
p("C16","Console name queries are complete, sorted and side-effect free",
 "A query returns exactly the configured consoles matching any of the given patterns (shell globs, or case-insensitive whole-name regular expressions when asked), each once, sorted with trailing numbers in numeric order; no match, a bad pattern, or too many matches for the requested mode is answered with the corresponding error and the matching names. Queries never disturb running sessions and are answered while other peers stall.",
 ["inputs","schedules","configurations"],
 "all console sets, patterns and option mixes, concurrent with other sessions and stalled peers",
 TESTS+"the query tests use one fixed configuration and no concurrency.",
 [K,O,"src/common.c"],[("query_consoles_via_globbing/regex","src/server-sock.c"),("compare_objs","src/server-obj.c")],(),["response to QUERY/CONNECT/MONITOR"])
p("C17","Start-up reports success only if the daemon is actually serving",
 "When started in the background, the invoking command returns zero only once the daemon is listening for sessions and will keep running, and otherwise returns non-zero with the reason on standard error and leaves no daemon, listening socket or PID file behind, whichever start-up step fails and however often calls are interrupted. Configuration lines in error are reported on standard error and left out.",
 ["fault_sequences","crash_points","configurations"],
 "failure of any system call during start-up (open, read, lock, pipe, fork, bind, listen, log open, ...) and all schedules of parent and child",
 "The tests start the daemon successfully and in two failing ways; they do not inject failures into the individual steps.",
 [S,"src/log.c","src/server-conf.c"],[("begin_daemonize/end_daemonize error pipe","src/server.c"),("log_set_err_pipe","src/log.c")],
 [("err pipe","status channel from daemon to parent","src/log.c")],["exit status and stderr of the invoking process, process table"])
p("C18","One daemon per configuration, and control commands find it",
 "While a daemon runs on a configuration file, starting another on the same file fails without disturbing the first; the query, terminate and re-open commands reach exactly that daemon, and report failure when none is running. After the daemon ends in any way, even killed, a new one can be started without manual clean-up.",
 ["histories","crash_points","schedules"],
 "all histories of starting, killing, crashing and querying daemons, with stale PID files left behind",
 "The tests cover one daemon started and stopped cleanly; not concurrent starts or crashes.",
 ["src/server-conf.c","src/util-file.c",S],[("lock on the configuration file","src/server-conf.c:process_config"),("signal_daemon","src/server-conf.c"),("pid file","src/server-conf.c:write_pidfile")],(),["exit status, signals delivered, second instance behaviour"])
p("C19","Termination is prompt and orderly",
 "On SIGTERM or SIGINT, arriving at any moment and in whatever state peers are, the daemon exits with status zero within bounded time, closes every session, device and log, removes its PID file, and writes to the logs everything it had accepted for them. No session or device peer can prevent or delay this.",
 ["schedules","crash_points"],
 "all arrival points of the signal relative to system calls, with stalled sessions, pending handshakes and unreachable devices",
 "The tests stop an idle daemon; they do not signal it at chosen points or with stalled peers.",
 [S,O,"src/server-conf.c"],[("exit_handler flag","src/server.c"),("destroy_server_conf","src/server-conf.c")],
 [("done","termination requested","src/server.c")],["exit status, PID file, log tail, peers' EOF"])
p("C20","Interval timestamps are written on schedule",
 "With a timestamp interval configured, every console log receives exactly one timestamp message at each multiple of the interval counted from local midnight of the day the daemon was started, and none in between, for any interval length, whatever other activity or log re-opening takes place. No timer is ever lost, fired early, or fired twice, and waiting for one costs no CPU.",
 ["schedules","configurations","histories"],
 "all intervals from a minute to months, weeks of simulated time, concurrent sessions and reconnect timers",
 TESTS+"the shortest interval is one minute.",
 [S,TP],[("schedule_timestamp/timestamp_logfiles","src/server.c"),("timer list","src/tpoll.c")],
 [("tStampNext","next timestamp","src/server.h:server_conf")],["log content against simulated time"])
p("C21","The client always restores the terminal and reports how it ended",
 "However a client session ends after it has started (closed by the user, by the server, by a lost connection, or by a terminating signal it handles), the user's terminal is returned to exactly the settings it had before, including across suspend and resume. The client exits with status zero only after a session or query that succeeded, and otherwise reports the server's reason on standard error and exits non-zero.",
 ["schedules","fault_sequences","crash_points"],
 "all ways and moments of ending: remote close or reset at any byte, server error at any handshake step, user escapes, suspend/resume at any point",
 TESTS+"the client is only run for queries without a terminal.",
 ["src/client-tty.c","src/client-sock.c","src/client.c","src/common.c"],[("connect_console raw mode and restore","src/client-tty.c"),("perform_suspend","src/client-tty.c")],(),["terminal attributes of the simulated tty, exit status, stderr"])
p("C22","The client relays keystrokes and output faithfully",
 "Every key the user types other than the client's own escape sequences reaches the server exactly once, in order and unmodified for all byte values; a doubled escape character sends one; each documented escape sequence produces exactly its one request. Everything the server sends is shown on the terminal exactly once and in order, and a session log file receives the same output.",
 ["inputs","schedules","fault_sequences"],
 "all byte values and escape sequences with any splitting between keyboard reads and network segments, any escape character, partial reads and writes",
 TESTS+"the interactive client is never run.",
 ["src/client-tty.c","src/util-file.c"],[("read_from_stdin, process_escapes","src/client-tty.c"),("write_to_stdout","src/client-tty.c")],
 [("escape mode","EOL/CHR/ESC state","src/client-tty.c")],["bytes at server, terminal and session log"])
p("C23","Access control is enforced before anything else happens",
 "With TCP-wrappers enabled, a peer from a denied address is disconnected without any response, session, console data, write access or reset, and the rejection is logged; allowed peers are unaffected. With loopback enabled (the default) the daemon accepts connections only on the loopback address.",
 ["configurations","schedules","inputs"],
 "all mixes of allowed and denied peers racing with each other, name lookups succeeding or failing, requests sent before the decision",
 TESTS+"no remote peer or deny rule is simulated.",
 [K,S],[("resolve_addr access check","src/server-sock.c"),("create_listen_socket","src/server.c")],(),["bytes sent to denied peers, listening address"])
p("C24","Sessions are told what happens to their console, and quiet means quiet",
 "Every session attached to a console receives, exactly once and as a complete message, each notice of a writer joining, departing or stealing that console and of its device connecting or disconnecting. A session in quiet mode receives no such message but still receives all console output; quiet mode of one session does not affect others.",
 ["histories","schedules"],
 "all histories of joins, thefts, departures, mode toggles and device losses across several sessions",
 TESTS+"no session is opened.",
 [O,E,K],[("notify_console_objs, write_notify_msg","src/server-obj.c"),("isInfo filtering","src/server-obj.c:write_obj_data"),("perform_quiet","src/server-esc.c")],
 [("enableQuiet","session suppresses messages","src/common.h:req_t")],["messages found in each session's output"])
p("C25","A crash leaves usable logs and a daemon that can simply be restarted",
 "If the daemon is killed at any instant, every byte already written to a console log stays there; the restarted daemon appends to the existing logs without truncating or rewriting them (unless asked to zero logs), reconnects to all consoles and serves sessions, with no leftover lock, PID file or socket state preventing it.",
 ["crash_points","histories"],
 "a kill before or after any system call, followed by restart, repeated",
 "The tests never kill the daemon abnormally.",
 [L,"src/server-conf.c",S,"src/util-file.c"],[("O_APPEND logs","src/server-logfile.c:open_logfile_obj"),("locks die with the process","src/util-file.c"),("PID file rewritten","src/server-conf.c:write_pidfile")],(),["files surviving in the simulated file system"])
p("C26","Suspending a session's output pauses it without losing the session",
 "While a session is suspended the daemon sends it nothing; when it resumes it receives the output produced meanwhile, in order and without duplication, missing at most the oldest part beyond the buffered 16 KB. Suspension never affects other sessions, consoles or logs, and a suspended session that disconnects is released.",
 ["schedules","histories"],
 "all suspend/resume points relative to output bursts, thefts, disconnects and resets",
 TESTS+"no session is suspended.",
 [E,O,"src/client-tty.c"],[("perform_suspend","src/server-esc.c"),("gotSuspend gating of POLLOUT","src/server-obj.c:write_obj_data")],
 [("gotSuspend","session output paused","src/server.h:client_obj")],["bytes sent to the suspended session"])
p("C27","A failing log never affects consoles, sessions or other logs",
 "If a console's log cannot be opened, locked or written (disk full, I/O error, missing directory, held lock), console output still reaches every session, input still reaches the console, and the other consoles' logs stay complete; the failure is reported to the daemon log. Everything recorded in the failing log before and after the fault is correct output in order, and logging resumes after a re-open once the cause is gone.",
 ["fault_sequences","schedules"],
 "errors or short results on any log system call, singly or repeated, on any subset of logs",
 TESTS+"no log error is injected.",
 [L,O],[("shutdown of a log object keeps it for re-open","src/server-obj.c:shutdown_obj"),("open_logfile_obj failure paths","src/server-logfile.c")],(),["session bytes, other logs, daemon log"])
p("C28","Created files are private and started programs inherit nothing",
 "Console logs and the client's log, which hold everything typed and shown on a console, are created so that only their owner can read or write them; the daemon log, the PID file and the directories the daemon creates can be written by their owner only. This holds whatever the umask and whenever they are created or re-created. A console program or reset command started by the daemon, at any moment, is given none of the daemon's descriptors: no session, console connection, log, listening socket, configuration lock or internal pipe.",
 ["schedules","histories","fault_sequences"],
 "all moments at which a program may be started relative to sessions, connections, re-opened logs and resets; all umasks; logs re-opened, rotated and failing",
 TESTS+"no log file's mode is looked at, and no program is started by the daemon while it holds anything.",
 [L,S,PR,"src/server-conf.c","src/client-conf.c","src/util-file.c",TP],[("open modes and umask","src/server-logfile.c, src/server.c:open_daemon_logfile, src/server-conf.c:write_pidfile, src/client-conf.c:open_client_log"),("close-on-exec on every descriptor","src/util-file.c:set_fd_closed_on_exec and its callers")],(),["modes of created files, descriptor table of every started program"])
p("C29","Serial lines are used exactly as configured and handed back as found",
 "Whenever the daemon reads from or writes to a serial console, the line has the speed (rounded down to the next supported one), data bits, parity and stop bits configured for that console, where fields missing in a console's seropts are those of the global seropts and then 9600,8n1; and it is in a transparent mode without echo, line editing, signal characters, translation of CR or NL, output processing or dependence on modem lines, however the line was left by its previous user. This holds again after every hang-up and re-opening. When the daemon is terminated, each line that was not hung up has the settings it had before.",
 ["configurations","histories","schedules","fault_sequences"],
 "all option strings, all settings found on the line, all sequences of hang-ups, re-openings by new sessions, data in both directions and termination",
 TESTS+"no serial line is opened.",
 [SE,"src/common.c"],[("parse_serial_opts / set_serial_opts / open_serial_obj","src/server-serial.c"),("get_tty_raw","src/common.c"),("restoring on destruction","src/server-obj.c:destroy_obj")],(),["termios of the line at every read and write, and after the daemon ended"])
p("C30","A configuration is honoured however it is written; a bad line costs only itself",
 "Whatever the letter case of keywords, blanks, comments, empty lines, line continuations, kind of line ends, quoting, order of attributes and number of settings per directive, a well-formed configuration has the effect documented: every console exists with the device, program arguments, log, log options, serial options and IPMI credentials and options configured for it; a global setting applies to the consoles that follow it and is overridden by a console's own; the last of repeated server settings counts (log and log directory, reset command, time stamps, search path of programs, keep-alive); and what is given on the command line is not overridden by the file. Each malformed or conflicting line (unknown keyword, unmatched quote, missing or wrong value, duplicate console or device) is reported exactly once with its line number, and has no effect on any other line.",
 ["configurations","histories","schedules"],
 "all spellings of a configuration, all positions and kinds of bad lines, all combinations of global and own settings and command-line options",
 TESTS+"no configuration is varied and no error in one is looked at.",
 ["src/lex.c","src/server-conf.c","src/server-ipmi.c","src/server-process.c","src/util-str.c",SE,L],[("lex_next / lookup_token","src/lex.c"),("process_config, parse_*_directive, process_console","src/server-conf.c"),("parse_ipmi_opts, create_ipmi_ctx","src/server-ipmi.c"),("search_exec_path","src/server-process.c"),("parse_string / substitute_string","src/util-str.c")],(),["start-up messages, arguments of started programs, IPMI configuration, serial settings, logs, sessions and query answers"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
