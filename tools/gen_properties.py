#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the long text stays readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=hook)))
T = ("The existing unit tests cover only the connection ring buffer, the linked list and the poller with one "
     "fixed order of calls; ")
p("C01", "At most one enabled session per seat; enable/disable strictly alternate",
  "On a seat at most one client session is enabled at any time: a session is sent an enable notification only when no other session of that seat is enabled or still owes the acknowledgement of a disable notification. Every session's notifications strictly alternate, beginning with enable, and a session is enabled again only after it acknowledged its last disable.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of client requests, VT signals, disconnects and kernel/IO faults, VT-bound or not",
  T + "none runs the daemon, two clients or a VT signal.",
  ["seatd/seat.c", "seatd/client.c"],
  [("active client of the seat", "the one enabled or pending-disable session", "seatd/seat.c"), ("client state", "new/active/pending disable/disabled/closed", "include/client.h")],
  [("activation refused while the seat has an active client", "seatd/seat.c"), ("acknowledgement releases the seat", "seatd/seat.c")],
  ["ENABLE_SEAT / DISABLE_SEAT / DISABLE_SEAT-request bytes on each client's socket"])
p("C02", "Devices are dead before the session loses the seat",
  "By the time a session is sent a disable notification, and before the release of its VT is acknowledged to the kernel, every input file description it was given is revoked and DRM master is dropped on every DRM description it was given. The same holds when it closes its seat, disconnects or is killed (before any other session is enabled), and when the last handle on a device is closed (before the reply), so that a session that is not enabled never holds a working device.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "every instant a switch, close, disconnect, kill or shutdown can hit, with any set of open devices; descriptions on which a revoke or drop ioctl was made to fail are exempt",
  T + "device revocation is never executed by a test.",
  ["seatd/seat.c", "seatd/client.c", "common/evdev.c", "common/drm.c", "common/hidraw.c"],
  [("device active flag", "whether the description is live", "include/seat.h")],
  [("devices deactivated before the disable event is sent", "seatd/seat.c"), ("devices of a removed client closed before the next activation", "seatd/seat.c")],
  ["EVIOCREVOKE, HIDIOCREVOKE, DRM_IOCTL_DROP_MASTER, VT_RELDISP order in the simulated kernel"])
p("C03", "A re-enabled session gets working devices",
  "When a session is enabled again, every DRM device it still holds is DRM master again before the enable notification is sent, if no one else holds master. Opening a device succeeds for an enabled session whenever the kernel lets it, including a device that was opened before, and yields a working (not revoked) description; input revoked by a disable never comes back to life through an old fd.",
  ["schedules", "histories"],
  "every history of opens, repeated opens, closes, switches away and back",
  T + "no test opens a device or re-enables a session.",
  ["seatd/seat.c", "seatd/client.c"],
  [("device table entry", "path, reference count, active flag", "include/seat.h")],
  [("reactivation of devices before enabling", "seatd/seat.c"), ("lookup of an already open path", "seatd/seat.c")],
  ["DRM_IOCTL_SET_MASTER order vs ENABLE_SEAT bytes", "descriptor passed with DEVICE_OPENED"])
p("C04", "Only the enabled session obtains devices, and only real device nodes",
  "The daemon opens a device for a client only if that client's session is enabled at that moment, and only if the requested path resolves to a canonical path below /dev/dri/, or beginning with /dev/input/event or (where supported) /dev/hidraw; anything else is refused with an error reply and no descriptor. The descriptor that is passed is the file the canonical path names, never one reached by a symbolic link in its last component, even when the path is changed while the request is served.",
  ["inputs", "schedules", "fault_sequences"],
  "every path string (links, dot-dot, prefixes, missing nodes), every client state, every instant of a concurrent rename or link swap",
  T + "no test sends a path to the daemon.",
  ["seatd/seat.c", "seatd/client.c", "common/evdev.c", "common/drm.c", "common/hidraw.c"],
  [("client state", "only an active client may open", "include/client.h")],
  [("realpath + prefix check + O_NOFOLLOW open", "seatd/seat.c")],
  ["open() calls of the daemon and descriptors received by clients"])
p("C05", "Device handles are accounted exactly",
  "Distinct devices a client holds have distinct ids; opening a path again while its device still works shares the same id, and the device stays open until it was closed as many times as it was opened. A client can hold 128 devices and the next one is refused with EMFILE; closing an unknown id is refused with an error and changes nothing; a failed open changes nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of opens (also repeated), closes (also bogus), switches, with failing open, dup, realpath and allocation",
  T + "the device table is never exercised.",
  ["seatd/seat.c", "seatd/client.c"],
  [("reference count", "opens not yet closed", "include/seat.h"), ("device id", "handle given to the client", "include/seat.h")],
  [("open/close of seat devices", "seatd/seat.c")],
  ["DEVICE_OPENED / DEVICE_CLOSED / ERROR replies and open device descriptions of the daemon"])
p("C06", "Session switching without VTs follows the request exactly",
  "On a seat without VTs, sessions are numbered from 1 in order of opening; a switch request for another existing session from the enabled session disables the enabled session, and when that has acknowledged or left, exactly the requested session is enabled (or, if it left meanwhile, some remaining session). A switch request from a session that is not enabled, to a non-positive number or to a session that does not exist is refused with an error and has no effect, switching to itself has no effect, and no session is ever disabled without such a request.",
  ["schedules", "histories", "inputs"],
  "every interleaving of switch requests, acknowledgements, opens, closes and disconnects of any number of sessions",
  T + "sessions and switching have no test.",
  ["seatd/seat.c", "seatd/client.c"],
  [("queued next client", "target of the switch", "include/seat.h"), ("session counter", "numbering", "include/seat.h")],
  [("queue the target, disable the active client, activate on ack", "seatd/seat.c")],
  ["SWITCH_SESSION requests and replies, ENABLE/DISABLE notifications"])
p("C07", "VT switches away are always granted promptly",
  "Whenever the kernel asks the daemon to release the foreground VT, the daemon grants the release within a bounded number of its own steps, whatever its clients do (stalled, not reading, never acknowledging, flooding, disconnecting). The session that was enabled on that VT has been sent its disable notification (or the attempt was made) and its devices are dead by then.",
  ["schedules", "histories", "fault_sequences"],
  "every instant at which a VT switch can be requested relative to requests, signals, full sockets and short or failing IO; tty opens and ioctls that are made to fail exempt that one release",
  T + "no test delivers a VT signal.",
  ["seatd/seat.c", "seatd/server.c", "seatd/poller.c", "common/terminal.c"],
  [("current VT", "daemon's view of the foreground VT", "include/seat.h")],
  [("release signal handler disables and acks", "seatd/seat.c"), ("self-pipe signal delivery", "seatd/poller.c")],
  ["VT_RELDISP vs pending release in the simulated VT driver"])
p("C08", "The enabled session converges to the foreground VT",
  "On a VT-bound seat, once VT switching pauses and clients have answered, the session opened on the foreground VT, if there is one, is the enabled one, and no session of any other VT is enabled. No VT acquire or release signal is ever lost, however signals overlap with each other and with the handling of earlier ones.",
  ["schedules", "histories"],
  "every timing of VT switches (also bursts, back-and-forth and switches during handlers), session opens, closes, crashes and acknowledgements",
  T + "no test delivers a VT signal.",
  ["seatd/seat.c", "seatd/poller.c", "seatd/server.c", "common/terminal.c"],
  [("current VT", "daemon's view of the foreground VT", "include/seat.h"), ("raised flag", "signal not yet handled", "seatd/poller.c")],
  [("acquire signal handler updates VT and activates", "seatd/seat.c"), ("raised flags and self-pipe", "seatd/poller.c")],
  ["foreground VT of the simulated VT driver vs last notification of every session"])
p("C09", "The text console is restored when a session goes away",
  "While a VT-bound session is enabled its VT is in graphics mode with the kernel keyboard off and process-controlled switching. When a session closes its seat, disconnects, is killed, or the daemon shuts down on SIGTERM/SIGINT, its VT is put back into text mode with the keyboard on (unless another session was enabled on that VT), in whatever state the session was, and no other session's VT is disturbed.",
  ["schedules", "histories", "crash_points"],
  "every state a session can be in when it leaves, and every foreground VT at that time; VTs whose tty open or ioctl was made to fail are exempt",
  T + "no test touches a VT.",
  ["seatd/seat.c", "common/terminal.c", "seatd/server.c"],
  [("session number", "VT of the session", "include/client.h")],
  [("VT configured on enable, restored on removal", "seatd/seat.c"), ("all clients destroyed on server shutdown", "seatd/server.c")],
  ["KD mode, keyboard mode and VT mode of every simulated VT"])
p("C10", "One session per VT, and only while the VT is free",
  "On a VT-bound seat a session belongs to the VT that was in the foreground when it was opened, and two open sessions never belong to the same VT. While a session is enabled no other session can be opened on the seat; a refused client is disconnected and the existing sessions are not affected.",
  ["schedules", "histories"],
  "every race between opening a seat, VT switches, acknowledgements, closes and disconnects",
  T + "opening a seat is never tested.",
  ["seatd/seat.c", "seatd/client.c"],
  [("session number", "VT of the session", "include/client.h")],
  [("admission check", "seatd/seat.c")],
  ["SEAT_OPENED replies vs the foreground VT of the simulated kernel", "KDSETMODE target VT"])
p("C11", "When the enabled session goes away an eligible one takes over",
  "When the enabled or disabling session acknowledges, closes its seat, disconnects or is killed, an eligible waiting session is enabled without any further stimulus: the queued switch target, else on a VT-bound seat the session of the foreground VT, else on other seats some waiting session. As long as such a session exists the seat never stays without an enabled session once the daemon is idle.",
  ["schedules", "histories", "crash_points"],
  "every moment and every way a session can leave, with any set of waiting sessions",
  T + "no test has two sessions.",
  ["seatd/seat.c", "seatd/client.c"],
  [("active client", "", "include/seat.h"), ("client list", "waiting sessions", "include/seat.h")],
  [("activation on ack and on removal", "seatd/seat.c")],
  ["notifications sent when the daemon goes idle"])
p("C12", "No client can crash, wedge or starve the daemon",
  "Whatever bytes, descriptors, fragments or disconnects a client produces, and whatever system call or allocation made on behalf of a client fails, the daemon neither crashes nor corrupts memory nor spins without progress nor exits unasked. A client that violates the protocol is disconnected, and well-behaved clients keep being served.",
  ["inputs", "schedules", "fault_sequences"],
  "every byte stream and ancillary data, every socket and kernel failure at every point",
  T + "the daemon's message handling is not tested at all.",
  ["seatd/client.c", "seatd/server.c", "seatd/poller.c", "common/connection.c", "seatd/seat.c", "common/terminal.c"],
  [("connection buffers", "partial messages", "include/connection.h")],
  [("message validation", "seatd/client.c"), ("fd and buffer limits", "common/connection.c")],
  ["process status, AddressSanitizer, replies to a pinging client, idle detection"])
p("C13", "Exactly one matching reply per request, in order",
  "Every request a connected client sends is answered by exactly one reply of the matching kind (the success reply of that request or an error reply with a positive error number), in the order of the requests, however the bytes are fragmented or coalesced and however short or interrupted the socket IO is. Nothing but replies and enable/disable notifications is ever sent, and a successful device open carries exactly one descriptor, no other message any.",
  ["inputs", "schedules", "fault_sequences"],
  "every pipelined request sequence, fragmentation and socket IO behaviour; requests the protocol forbids end the connection instead",
  T + "the request handlers are not tested.",
  ["seatd/client.c", "common/connection.c"],
  [("in/out ring buffers", "unparsed and unsent bytes", "include/connection.h")],
  [("dispatch loop and handlers", "seatd/client.c")],
  ["bytes and descriptors on each client's socket against a reference model of the protocol"])
p("C14", "Notifications and replies survive socket backpressure",
  "When a client's socket is full, the daemon keeps what it could not send and delivers it, unchanged and in order, as soon as the client reads, without needing another request; the enabled or disabled state the client is told is the state the daemon acts on. Only a client that lets more than the output buffer pile up may be disconnected.",
  ["schedules", "fault_sequences"],
  "every moment at which the socket can be full or accept part of the data",
  T + "the connection tests flush to a socket that is never full.",
  ["seatd/client.c", "common/connection.c", "seatd/poller.c"],
  [("pending output", "bytes not yet accepted by the socket", "include/connection.h")],
  [("flush, arm writability, flush again", "seatd/client.c")],
  ["bytes received after the socket drains"])
p("C15", "The connection layer is a FIFO of bytes and descriptors",
  "Whatever is put into one end of a connection comes out of the other end in the same order, each byte and each descriptor exactly once, a descriptor never later than the bytes put after it, for every pattern of short transfers, interruptions, would-block results, buffer wrap-arounds and restores. Buffer limits are reported as errors instead of losing or overwriting data, descriptors that cannot be stored are closed, and the end of the stream is reported.",
  ["schedules", "fault_sequences", "inputs"],
  "every sequence of put, put-fd, flush, read, get, get-fd, restore and close under every socket behaviour",
  "Existing tests use a real socketpair that never returns short counts, EINTR or EAGAIN mid-message, and a handful of fixed sizes.",
  ["common/connection.c", "include/connection.h"],
  [("head/tail indices", "ring buffer positions", "include/connection.h")],
  [("iovec construction and ring buffer copy", "common/connection.c"), ("ancillary data build/decode", "common/connection.c")],
  ["return values and data of the connection functions vs a model queue"])
p("C16", "libseat delivers seat events in order, exactly once",
  "An application's enable and disable callbacks are invoked once per notification the daemon sent, in the order sent, no matter in which call (opening, a request, dispatch, close) the notifications were received, and only from within dispatch, open and close calls.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of notifications with replies and requests, and every fragmentation",
  T + "libseat has no test.",
  ["libseat/backend/seatd.c", "common/linked_list.c"],
  [("pending events", "received, not yet delivered", "libseat/backend/seatd.c")],
  [("queue on read, execute in dispatch", "libseat/backend/seatd.c")],
  ["callback sequence vs notifications on the wire"])
p("C17", "A polling application is always woken for undelivered events",
  "If libseat has received a notification it has not yet delivered, the descriptor it exposes becomes readable without further stimulus, so an application that only dispatches when the descriptor is readable sees every event. Dispatch with timeout 0 never blocks, with a positive timeout never blocks longer than it, and with -1 returns once something was delivered; its result is positive when messages were processed, 0 when none were.",
  ["schedules", "histories"],
  "every interleaving of notifications with synchronous requests",
  T + "libseat has no test.",
  ["libseat/backend/seatd.c"],
  [("awaiting pong", "wake-up requested", "libseat/backend/seatd.c")],
  [("ping when events are pending after a request", "libseat/backend/seatd.c")],
  ["readability of the libseat descriptor, virtual time spent in dispatch"])
p("C18", "libseat requests report exactly what the daemon did",
  "A libseat request returns success exactly if the daemon replied success, with that reply's device id and descriptor; if the daemon replied with an error, the call fails with that error number, and a locally invalid argument fails with EINVAL. A failed request leaves the connection usable and in step: later requests get their own replies.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every order of requests, notifications and daemon-side failures",
  T + "libseat has no test.",
  ["libseat/backend/seatd.c", "libseat/libseat.c"],
  [("connection", "request/reply stream", "libseat/backend/seatd.c")],
  [("read until response, header check", "libseat/backend/seatd.c")],
  ["libseat return values and errno vs replies on the wire"])
p("C19", "Loss of the daemon is reported and never hangs the application",
  "If the daemon dies, closes the connection or sends bytes that are not a valid message, every libseat call in progress and every later one on that seat returns failure with an errno within bounded time instead of blocking, crashing or reporting success, dispatch fails instead of returning 0 for ever, and closing the seat still frees it.",
  ["crash_points", "schedules", "fault_sequences", "inputs"],
  "every point of a conversation at which the daemon can die or misbehave, also with partial messages",
  T + "libseat has no test.",
  ["libseat/backend/seatd.c", "common/connection.c"],
  [("error flag", "connection is unusable", "libseat/backend/seatd.c")],
  [("poll hangup and zero read handling", "libseat/backend/seatd.c")],
  ["libseat results after the crash"])
p("C20", "libseat neither leaks nor double-closes",
  "Across any history of opens, requests, failures and closes, libseat releases every descriptor and allocation it made once the seat is closed or the open failed, closes each descriptor exactly once and never one it does not own, and descriptors handed to the application stay open until the application closes them.",
  ["histories", "fault_sequences", "crash_points"],
  "every failing system call and every point of connection loss",
  T + "libseat has no test.",
  ["libseat/backend/seatd.c", "libseat/backend/noop.c", "common/connection.c"],
  [("descriptors", "connection, received device fds", "libseat/backend/seatd.c")],
  [("cleanup and destroy", "libseat/backend/seatd.c")],
  ["descriptor table and heap of the simulated application process"])
p("C21", "seatd owns its socket path exactly while it runs",
  "seatd signals readiness, if asked, exactly once and only when clients can connect and the requested owner, group and mode are set, then closes that descriptor; with an owner or group asked for, nobody else can connect at any time, whatever the umask; it replaces a stale socket but never any other kind of file, and with -z refuses to start when anything is there. Whenever it exits on its own (SIGTERM, SIGINT, failed start after creating the socket) the socket path it created is gone, it exits with status 0 only when it was asked to, and a crashed instance is replaced by the next one.",
  ["crash_points", "fault_sequences", "configurations"],
  "every failing system call during startup and shutdown, every signal time, every previous content of the path",
  T + "seatd's main program is not tested.",
  ["seatd/seatd.c", "seatd/server.c"],
  [("socket path", "rendezvous for clients", "seatd/seatd.c")],
  [("lstat/unlink/bind/listen/chmod/chown sequence", "seatd/seatd.c"), ("unlink on exit", "seatd/seatd.c")],
  ["file system, listening state and readiness pipe of the simulated kernel"])
p("C22", "seatd-launch runs the command unprivileged and cleans up",
  "seatd-launch starts the command only after its seatd signalled readiness and the socket is restricted to the invoking user, as that user (real uid and gid, no privileges left), with SEATD_SOCK set, with the arguments it was given and with no descriptors but the invoker's. It never displaces a socket that is already there. It exits with the command's status, or 128 plus the signal that killed it, or non-zero when seatd or the command could not be started or any privilege step failed; on every path seatd is told to terminate such that it removes its socket, a stopped command is waited for, and no signal is ever sent to a process id it already reaped.",
  ["schedules", "crash_points", "fault_sequences"],
  "every order of seatd start-up, failure, readiness and exit relative to the launcher, every failing system call",
  T + "seatd-launch is not tested.",
  ["seatd-launch/seatd-launch.c", "seatd/seatd.c"],
  [("readiness pipe", "", "seatd-launch/seatd-launch.c")],
  [("wait for readiness, drop privileges, fork and wait", "seatd-launch/seatd-launch.c")],
  ["credentials and environment at exec, exit status, signals sent, socket mode and owner"])
p("C23", "The built-in daemon lives exactly as long as its seat",
  "With the builtin backend the application gets a working seat served by a private helper process that grants the same guarantees as the daemon, and that helper terminates, restores the VT and revokes all devices as soon as the application closes the seat, exits or is killed, without running exit handlers of the application. If the helper cannot be started or dies, the application's calls fail instead of hanging.",
  ["crash_points", "schedules", "fault_sequences"],
  "every point at which application or helper can die or a system call fail",
  T + "the builtin backend is not tested.",
  ["libseat/backend/seatd.c", "seatd/client.c", "seatd/server.c"],
  [("server running flag", "cleared when the only client goes", "seatd/server.c")],
  [("fork + embedded server", "libseat/backend/seatd.c")],
  ["simulated processes, VT and devices"])
p("C24", "logind events mirror the session's Active property",
  "With the logind backend the first dispatch delivers exactly one event giving the session's state at opening, and from then on enable and disable callbacks alternate and, once all bus messages are processed, agree with the session's Active property; neither runs without logind having announced that change for this session. A pause request is acknowledged to logind, once per request and with its device number, only after the disable callback ran; gone and forced pauses are not acknowledged.",
  ["schedules", "histories", "fault_sequences"],
  "every order of property changes (by value or invalidated), pauses, resumes and requests, and every failing bus call",
  T + "the logind backend is not tested.",
  ["libseat/backend/logind.c"],
  [("active flag", "last delivered state", "libseat/backend/logind.c")],
  [("PropertiesChanged and PauseDevice handlers", "libseat/backend/logind.c")],
  ["callbacks and bus calls against a simulated logind"])
p("C25", "The logind backend takes and releases what it should, memory-safely",
  "Opening a seat takes control of the caller's session exactly once and, when any step fails, returns NULL with the cause in errno and nothing left behind; closing releases control once. Each opened device is one TakeDevice answered with an own close-on-exec copy of the descriptor, each closed device one ReleaseDevice, a device whose open failed is not kept taken, a dispatch that delivered the initial event does not wait for more, a switch asks for exactly the given session and never for a negative one, failures return -1 with errno set, messages and descriptors are neither leaked nor used after release, and queued bus data always leads to a wake-up of a polling application.",
  ["histories", "fault_sequences", "schedules"],
  "every failing bus call, property read, allocation or descriptor duplication",
  T + "the logind backend is not tested.",
  ["libseat/backend/logind.c"],
  [("bus connection", "", "libseat/backend/logind.c")],
  [("method calls with cleanup", "libseat/backend/logind.c")],
  ["bus calls, descriptors, messages and heap of the simulated application"])
p("C26", "The event loop loses no event and calls no dead handler",
  "The poller calls a handler only for a source that is still registered and only with conditions that were pending; a source removed or changed by another handler in the same round is never called with stale state. Every raised signal leads to at least one later call of each handler registered for it, however the raise overlaps with polling and with running handlers and whatever signals the process had blocked when it was started, and every ready descriptor is eventually served; callers see no spurious failures on interruption.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of registration, removal, update, readiness, signal arrival and interruption",
  "Existing poller tests raise one signal before polling and never from within a handler; removal during dispatch is tested for one order only.",
  ["seatd/poller.c", "include/poller.h"],
  [("killed and raised flags", "", "seatd/poller.c")],
  [("lazy removal, regenerate, self-pipe", "seatd/poller.c")],
  ["handler invocations vs simulated descriptor and signal state"])
p("C27", "Backend selection takes the first that works and never noop by itself",
  "Without LIBSEAT_BACKEND, opening a seat yields the first of seatd, logind, builtin that works, never noop, and fails with ENOSYS if none does; with it, exactly the named backend is tried and an unknown name fails with EINVAL. Backends that failed leave no descriptor, process or memory behind, SEATD_SOCK is honoured, and a noop seat is enabled exactly once, keeps dispatch within its timeout, does not wait once it delivered that event, opens exactly the named device and sets errno for what it refuses.",
  ["configurations", "fault_sequences"],
  "every combination of available backends, environment and failing system calls",
  T + "libseat has no test.",
  ["libseat/libseat.c", "libseat/backend/seatd.c", "libseat/backend/noop.c", "libseat/backend/logind.c"],
  [("backend table", "order of preference", "libseat/libseat.c")],
  [("backend iteration", "libseat/libseat.c")],
  ["connections, processes and callbacks after opening"])
p("C28", "The daemon returns every resource a client made it use",
  "When a client is gone, by whatever route and with whatever failures on the way, the daemon holds no descriptor, device or memory on its behalf any more: after all clients have left, its open descriptors and live allocations are those it had before they came. No descriptor is ever closed twice, and after a clean exit everything was released.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of connections, descriptors sent by clients, opens, failures and disconnects",
  T + "no test runs a client through the daemon.",
  ["seatd/client.c", "seatd/seat.c", "seatd/server.c", "seatd/poller.c", "common/connection.c"],
  [("client, device, event source and buffer objects", "", "seatd/client.c")],
  [("client and device teardown", "seatd/client.c"), ("descriptors sent by clients are closed", "common/connection.c")],
  ["descriptor table and heap of the simulated daemon"])
p("C29", "VT device names are right on every supported kernel",
  "The terminal device name computed for a VT number names that VT on Linux, FreeBSD (base-32 numbering, off by one) and NetBSD.",
  ["configurations", "inputs"],
  "every VT number on every supported operating system",
  "Tests run on Linux only and do not cover terminal naming.",
  ["common/terminal.c"], [], [("tty path generation", "common/terminal.c")], ["path passed to open"])
p("C30", "Logging shows what was asked for and changes nothing else",
  "A libseat message reaches the handler that is set when it is produced (standard error by default and again after a handler of NULL) exactly if its level is at most the level that is set then (silent by default), once and in order; nothing is printed anywhere else. seatd -l prints exactly the messages of that level and below. Whatever level is set and whatever a handler does to errno, every result, error number and action of libseat and seatd is the same as without logging.",
  ["schedules", "inputs", "fault_sequences"],
  "every execution, every place where a message is produced, every moment at which level or handler change",
  T + "no test sets a log handler; that logging changes nothing is a statement about pairs of executions.",
  ["common/log.c", "include/log.h", "include/libseat.h", "seatd/seatd.c"],
  [("log level and handler", "", "common/log.c")],
  [("level filter, handler, errno kept", "common/log.c"), ("-l option", "seatd/seatd.c")],
  ["handler calls, standard streams and trace of two executions with equal decisions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
