// Deterministic simulator for seatd: processes (fibers), kernel, faults, decisions.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <errno.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;

struct Proc;
struct File;
struct Node;
struct World;
struct Monitor;
struct pollfd;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(mix64(seed ^ 0x5eed)) {}
	u64 next() { return mix64(s += 0x9e3779b97f4a7c15ull); }
	u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
	int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};

// ---------------------------------------------------------------- decisions / faults
// A decision is keyed by (actor, kind, per-actor counter of that kind). The default is 0, which
// always is the simplest outcome (no fault, no preemption).
enum Kind {
	K_PREEMPT,    // switch to another runnable actor at a system call
	K_NEXT,       // who runs after the current actor blocked
	K_SIGDELAY,   // basic blocks between posting a signal and running its handler
	K_SHORT_READ, // recv/read returns fewer bytes than available
	K_SHORT_WRITE,
	K_EINTR,
	K_EAGAIN_SEND,
	K_SEND_ERR,
	K_ALLOC,
	K_OPEN_DEV,
	K_IOCTL_DEV,
	K_OPEN_TTY,
	K_IOCTL_TTY,
	K_DUP,
	K_ACCEPT,
	K_REALPATH,
	K_PEERCRED,
	K_FCNTL,
	K_SPURIOUS_POLL,
	K_POLL_ERR,
	K_SOCKET,     // socket, socketpair, pipe
	K_BIND,
	K_LISTEN,
	K_CHMOD,
	K_CHOWN,
	K_UNLINK,
	K_WRITE_ERR,
	K_CONNECT,
	K_FORK,
	K_EXEC,
	K_SETID,
	K_WAITPID,
	K_BUS,        // failing D-Bus call / property read / message parse
	K_VTDELAY,    // delay between VT_ACTIVATE and the switch
	K_RECV_ERR,
	K_TIMEJUMP,
	K_MISC,
	K_IOCTL_KD,   // setting keyboard or screen mode of a terminal fails
	K_FSRACE,     // a device path becomes a symbolic link between its check and its use
	K_MAX
};
extern const char *kind_name[K_MAX];

// ---------------------------------------------------------------- plan
struct Op {
	int actor = 0;
	std::string verb;
	std::vector<long> a;
	std::string s;
};
struct Plan {
	std::string profile;
	u64 seed = 0;
	std::map<std::string, long> cfg; // run configuration, drawn by the generator
	std::vector<double> rate;        // per Kind, search mode only
	std::vector<Op> ops;
	long get(const char *k, long d = 0) const {
		auto it = cfg.find(k);
		return it == cfg.end() ? d : it->second;
	}
};
struct DecKey {
	int actor, kind;
	u32 n;
	bool operator<(const DecKey &o) const {
		if (actor != o.actor) return actor < o.actor;
		if (kind != o.kind) return kind < o.kind;
		return n < o.n;
	}
};

// ---------------------------------------------------------------- kernel objects
enum FType { F_NULL, F_PIPE_R, F_PIPE_W, F_SOCK, F_TTY, F_EVDEV, F_DRM, F_HIDRAW, F_REG, F_BUS };
struct Skb {
	std::string data;
	size_t off = 0;
	std::vector<File *> fds;
};
struct PipeBuf {
	std::string data;
	int readers = 0, writers = 0;
	size_t cap = 65536;
};
struct File {
	FType type;
	int ref = 1;
	u32 id = 0;
	int flags = 0; // O_NONBLOCK and access mode
	std::string path;
	Node *node = nullptr;   // inode, for devices, sockets and regular files
	int opener = -1;        // pid which opened it
	// pipes
	PipeBuf *pipe = nullptr;
	// sockets
	File *peer = nullptr;
	std::deque<Skb> rx;
	size_t rxbytes = 0, cap = 1 << 20;
	bool listening = false, connected = false, peer_gone = false, shut_rd = false, shut_wr = false;
	int so_err = 0, backlog = 0;
	std::deque<File *> acceptq;
	int cred_pid = 0, cred_uid = 0, cred_gid = 0; // credentials the *peer* sees as ours
	int peer_pid = 0, peer_uid = 0, peer_gid = 0;
	bool is_accepted = false; // server end created by accept
	int conn = -1;            // monitor connection id
	bool pollout_armed = false;
	// tty
	int vt = 0;
	// devices
	bool revoked = false;
	bool tainted = false; // an ioctl on it was made to fail
	bool given = false;   // passed to a client
	int given_conn = -1;
	bool was_master = false;
	bool opened_nofollow = false;
	bool via_link = false; // the last component of the opened path was a symbolic link
};
enum NType { N_REG, N_DIR, N_SOCK, N_LINK, N_EVDEV, N_DRM, N_RENDER, N_HIDRAW, N_TTYDEV, N_NULL };
struct Node {
	NType type;
	int mode = 0600, uid = 0, gid = 0;
	std::string target;   // symlink
	File *listener = nullptr;
	File *master = nullptr; // DRM
	bool tainted = false; // an ioctl of one of its descriptions was made to fail
	bool exist = true;      // device still plugged in
	int opens = 0;
	int minor = 0;
	int vt = 0;
	int id = 0;
};
struct VT {
	bool process = false; // VT_PROCESS
	int pid = 0;
	int relsig = 0, acqsig = 0;
	int newvt = -1; // pending release
	int kd = 0;     // KD_TEXT 0 / KD_GRAPHICS 1
	int kb = 3;     // K_UNICODE 3 (initial), K_OFF 4
	bool allocated = false;
	bool tainted = false; // a tty open/ioctl on it was made to fail
	bool touched = false; // the daemon configured it for a session
	u64 rel_step = 0;     // daemon step count when the release was requested
	bool rel_tainted = false;
};

struct PollWait {
	File *f;
	short events;
	int fd;
};
enum PState { P_RUNNABLE, P_BLOCKED, P_ZOMBIE, P_DEAD };
struct FdEnt {
	File *f = nullptr;
	bool cloexec = false;
};
struct Stack {
	char *base = nullptr;
	size_t size = 0;
	Proc *resident = nullptr;
	int refs = 0;
};
enum Image { IMG_NONE, IMG_S, IMG_L, IMG_W, IMG_N };
struct SigAct {
	void (*h)(int) = SIG_DFL;
	int flags = 0;
};
struct Proc {
	int pid = 0, ppid = 0, actor = 0;
	std::string name;
	int uid = 0, gid = 0, euid = 0, egid = 0, suid = 0, sgid = 0;
	bool dropped_groups = false;
	Image img = IMG_NONE;
	PState st = P_RUNNABLE;
	bool stopped = false, stop_seen = false;
	int exit_status = 0; // wait status
	bool faultable = false;
	bool is_daemon = false;  // runs seatd's server code
	bool is_builtin = false; // builtin helper
	// context
	Stack *stk = nullptr;
	void *sp = nullptr;
	std::vector<char> saved_stk, saved_shadow;
	std::function<int()> entry;
	bool started = false;
	int err = 0;
	std::vector<char> gdata[IMG_N];
	bool ghave[IMG_N] = {};
	// resources
	std::vector<FdEnt> fds;
	int fd_limit = 256;
	std::vector<std::pair<std::string, std::string>> env;
	std::vector<char *> envmem;
	long allocs = 0;
	std::set<void *> inherited; // allocations of the forking parent
	// signals
	u64 sigpending = 0, sigrun = 0;
	int umask_ = 022;
	SigAct act[65];
	long sig_edges = -1;
	// blocking
	std::vector<PollWait> waits;
	std::function<bool()> ready; // extra readiness predicate (heap state only)
	bool wait_child = false;
	bool interruptible = true;
	u64 deadline = ~0ull;
	bool woken_by_signal = false;
	// statistics
	u64 nsys = 0;
	u64 idle_polls = 0;
	u64 steps_since_idle = 0;
	u64 dec_n[K_MAX] = {};
	int busy_polls = 0;
	u64 blocks = 0;
	const char *in_call = nullptr;
	u64 call_blocked = 0;
	bool started_ok = false;
	u64 polls = 0;   // times it waited in poll()
	u64 nfaults = 0; // hard faults injected
	// getopt state
	bool exec_ok = false;
	bool vfork_child = false;
	std::vector<int> killed_sent;
	int optind_ = 1, optpos_ = 0;
	std::vector<std::string> argv_store;
	std::vector<char *> argv_ptr;
	int exec_count = 0;
	std::string exec_path;
	// logging: what the plan asked for, and the standard streams
	int log_level = 0, log_handler = 0;
	std::string outline[2]; // the unfinished line on stdout and stderr
	bool crashed = false;
};

// ---------------------------------------------------------------- violations
struct Violation {
	std::string props; // space separated property ids
	std::string rule;
	std::string detail;
	u64 step = 0;
};

struct ActorDef; // apps

struct LogMsg {
	int pid = 0;
	bool daemon = false;
	int via = 0; // 0 stderr, 1 and 2 handlers of the application, -1 stdout
	int level = 0;
	std::string text;
	int want_level = 0, want_handler = 0; // the settings at that time, according to the plan
};
struct World {
	int log_pass = 0; // 1: everything is logged, 2: as the plan says (property C30)
	std::vector<LogMsg> logs;
	Plan *plan = nullptr;
	bool replay = false;
	std::map<DecKey, u32> dec;      // replay: input; search: recorded non-zero
	u64 now = 0;                    // simulated ns
	u64 steps = 0, max_steps = 0;
	u64 hash = 0;
	u32 next_file = 1;
	int next_pid = 100;
	bool faults_on = true;
	bool mid_heal = false;
	std::vector<Proc *> procs;
	std::map<std::string, Node *> fs;
	std::vector<Node *> dead_nodes;
	std::set<File *> files;
	VT vt[16];
	int fg = 1;
	int want_vt = -1;
	u64 want_time = 0;
	bool vt_chaos = false;
	u64 vt_switches = 0;
	std::unordered_map<void *, std::pair<int, size_t>> heap; // ptr -> (pid, size)
	u64 fault_fired[K_MAX] = {};
	u64 sched_switches = 0;
	std::vector<Violation> viol;
	std::string race_path; // see fs_race()
	int race_type = 0, race_minor = 0;
	std::string stop_prop; // stop the run at the first violation of this property
	bool stop = false;
	std::string stop_reason;
	Monitor *mon = nullptr;
	size_t sock_cap = 1 << 20;
	std::vector<std::pair<u64, std::function<void()>>> timers; // kernel timers
	std::set<u64> states; // distinct abstract states (this run)
	u64 gen = 0;
	std::map<std::string, u64> probe; // "this rare condition was hit" counters
};
extern World *W;
extern Proc *cur;     // running process, null in the scheduler
extern bool verbose;
extern bool g_in_sim; // inside simulator code

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mixh(u64 v);
// The daemon may hold output that no send attempt has shown yet (found out by calibrate() in main.cc);
// what a connection that waits for its reader has been told is then unknown until it has drained.
extern bool g_lazy, g_late;
void violation(const char *props, const char *rule, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
static inline void probe(const char *n) { W->probe[n]++; }

u32 decide(int actor, Kind k, u32 n, double p); // 0 with probability 1-p, else 1..n-1
bool fault(Kind k);                             // for the current process, at the plan's rate
u32 faultn(Kind k, u32 n);

// processes
Proc *proc_new(const char *name, int actor, Image img, std::function<int()> entry);
Proc *proc_find(int pid);
void proc_exit(int status) __attribute__((noreturn)); // current process, wait status
void proc_kill(Proc *p, int status);                  // from scheduler or another process
void post_signal(Proc *p, int sig);
void yield_point();       // maybe let someone else run
void block_current();     // block until proc_ready
bool proc_ready(Proc *p);
void run_world(u64 max_steps);
bool world_quiescent();
void deliver_signals();
void world_reset();
void world_init(Plan *plan, bool replay);
void wait_ready();        // block with cur->waits / ready / deadline; returns when ready or signal
void images_init();

// files
File *file_new(FType t);
void file_ref(File *f);
void file_unref(File *f);
int fd_install(Proc *p, File *f, bool cloexec, int min = 0);
File *fd_get(Proc *p, int fd);
long k_close(Proc *p, int fd);
short file_poll(File *f);
Node *node_new(const std::string &path, NType t, int mode, int uid, int gid);
void fs_race(const std::string &path);
void fs_race_end();
void node_remove(const std::string &path);
long k_realpath(const std::string &in, std::string &out, bool follow_last);
Node *fs_lookup(const std::string &path);
void dev_unplug(Node *n);
bool dev_live(File *f);
bool is_dev(File *f);
long k_open(Proc *p, const std::string &path, int flags);
long k_sendmsg(Proc *p, int fd, const struct msghdr *m, int flags);
long k_recvmsg(Proc *p, int fd, struct msghdr *m, int flags);
long k_connect(Proc *p, int fd, const std::string &path);
long k_socket(Proc *p, int type);
long k_socketpair(Proc *p, int type, int sv[2]);
long k_ioctl(Proc *p, int fd, unsigned long req, void *arg);
void vt_set_console(int vt);  // user pressed Ctrl-Alt-Fn, or VT_ACTIVATE
void vt_change_console(int vt);
int k_bus_open(Proc *p);

// ---------------------------------------------------------------- system call API for harness actors
extern "C" {
long simx_now_ms(void);
}
std::string proc_tag(Proc *p);

// ---------------------------------------------------------------- monitor hooks (oracle.cc)
struct Monitor {
	virtual ~Monitor() {}
	// data and fds the sender offered; accepted bytes or -errno
	virtual void on_send(Proc *, File *, const std::string &, const std::vector<File *> &, long) {}
	virtual void on_send_error(Proc *, File *, int) {}
	virtual void on_recv(Proc *, File *, const char *, size_t, const std::vector<File *> &) {}
	virtual void on_recv_eof(Proc *, File *) {}
	virtual void on_accept(Proc *, File *) {}
	virtual void on_sock_release(File *) {}
	virtual void on_open(Proc *, const std::string &, File *, int, int) {}
	virtual void on_dev_ioctl(Proc *, File *, unsigned long, int, bool) {}
	virtual void on_dev_release(File *) {}
	virtual void on_tty_ioctl(Proc *, int, unsigned long, long, int, bool) {}
	virtual void on_vt_switched(int, int) {}
	virtual void on_vt_release_req(int, int) {}
	virtual void on_poll_enter(Proc *, bool) {}
	virtual void on_poll_spin(Proc *) {}
	virtual void on_poll_ret(Proc *, const struct pollfd *, size_t, long) {}
	virtual void on_io(Proc *, bool, int, long) {} // result of sendmsg (true) or recvmsg
	virtual void on_close_bad(Proc *, int) {}
	virtual void on_close(Proc *, int, File *) {}
	virtual void on_fork(Proc *, Proc *) {}
	virtual void on_exit(Proc *, int) {}
	virtual void on_exec(Proc *, const std::string &, const std::vector<std::string> &) {}
	virtual void on_kill(Proc *, int, int, bool) {}
	virtual void on_fs(Proc *, const char *, const std::string &, int) {}
	virtual void on_pipe_write(Proc *, File *, const char *, size_t) {}
	virtual void on_fault(Proc *, Kind) {}
	virtual void on_signal(Proc *, int) {}
	virtual void on_no_fd(Proc *) {} // a received descriptor did not fit
	virtual void on_fs_change() {}
	virtual void on_realpath(Proc *, const std::string &, const std::string &, int) {}
};
