#pragma once
#include "sim.h"
// Wire opcodes (the protocol is the observable interface)
enum {
	C_OPEN_SEAT = 1, C_CLOSE_SEAT, C_OPEN_DEVICE, C_CLOSE_DEVICE, C_DISABLE_SEAT, C_SWITCH_SESSION, C_PING,
	S_BASE = 0x8000, S_SEAT_OPENED = 0x8001, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_DISABLE_SEAT,
	S_ENABLE_SEAT, S_PONG, S_SESSION_SWITCHED, S_SEAT_DISABLED, S_ERROR = 0xffff
};
enum CState { ST_NONE, ST_NEW, ST_ENABLED, ST_PENDING, ST_DISABLED, ST_CLOSED };
extern const char *st_name[];
struct Srv;
struct Req {
	int op = 0;
	std::string path;
	int arg = 0;
	bool acked = false, used = false;
	u64 fsgen = 0;     // file system generation when it was received
	u64 srv_fault = 0; // number of faults injected into the server when it was received
	u64 tty_fault = 0, vt_fault = 0;
	std::set<int> vts; // foreground VTs while it was outstanding
};
struct Reply {
	int op = 0, err = 0, id = 0;
	u32 file = 0;
	size_t end = 0; // stream offset of its end
};
struct Ev {
	char k;
	size_t end;
};
struct HeldDev {
	std::string path;
	int count = 0;
	u32 file = 0;
	int minor = 0;
};
struct Conn {
	int id = 0;
	Srv *srv = nullptr;
	File *f = nullptr, *cf = nullptr; // server end, client end (null once released)
	bool builtin = false;
	int cpid = 0;
	// client -> server
	std::string in;
	size_t in_total = 0;
	std::deque<Req> fifo;
	u64 nreq = 0;
	bool malformed = false, peer_left = false, recverr = false, senderr = false, closed = false;
	bool oversize = false;
	int fds_in = 0;
	u64 fault_at_accept = 0;
	// server -> client
	std::string unsent, parse;
	size_t sent = 0, attempted = 0;
	size_t rcvd = 0; // bytes the client took
	u64 csent = 0;   // bytes the client sent
	bool cleft = false, cleft_lost = false; // the client closed its end; after it lost the server
	bool fake = false; // the server end is a scripted daemon
	size_t bad_at = 0;  // fake: stream offset at which invalid bytes begin
	size_t bad_end = 0; // fake: stream offset at which the stream is known to be invalid
	std::vector<u32> fds_sent, fds_att;
	size_t nopened = 0;
	std::vector<size_t> opened_end;
	std::vector<Ev> evs;
	std::vector<Reply> replies; // all but PONG
	size_t npong = 0;
	bool wire_bad = false;
	// session
	CState st = ST_NONE;
	bool was_enabled = false;
	int session = 0;
	std::set<int> vts;
	bool vt_amb = false;
	std::map<int, HeldDev> devs;
	std::set<u32> given; // device files passed over the wire, still open somewhere
	size_t attempted_before_close = 0;
	bool has_seat() const { return st >= ST_NEW && st <= ST_DISABLED; }
	size_t peak = 0; // most bytes waiting since the daemon last waited
	int must_close = -1; // another connection was enabled: it has to be gone before the daemon polls again
	bool untold = false; // its VT was released before it could be told to disable
	bool lagged = false; // output was waiting when the daemon last polled
	bool hidden() const { return g_lazy && (lagged || !unsent.empty()); }
	bool overflow() const { return hidden() || std::max(unsent.size(), peak) + 12 > 256; }
	int vt() const { return !vt_amb && vts.size() == 1 ? *vts.begin() : -1; }
};
struct Srv {
	Proc *p = nullptr;
	int pid = 0;
	bool vt_bound = true, builtin = false, ready = false, exited = false, term = false;
	std::vector<Conn *> conns;
	Conn *queued = nullptr;
	int session_n = 0;
	bool amb() const {
		bool r = session_amb;
		for (auto c : conns) r |= !c->closed && c->hidden();
		return r;
	}
	bool session_amb = false; // an open whose reply could not be seen may have taken a number
	u64 faults = 0, tty_faults = 0, vt_faults = 0, dev_open_fail = 0;
	std::set<int> kd_fault, kb_fault; // terminals whose mode could not be set
	bool vt_lost = false; // a tty fault may have left VT state behind
	bool have_base = false;
	long base_allocs = 0;
	size_t base_fds = 0;
	u64 idles = 0;
	u64 last_idle_sys = 0;
	int active_client_app = -1;
	u64 handler_faults = 0;
	bool start_fault = false;
	bool fake = false;
	std::set<int> vt_touched;
	std::set<u32> inherited; // files it got by fork
};
struct Oracle : Monitor {
	std::vector<Conn *> conns;
	std::vector<Srv *> srvs;
	std::map<u32, File *> devfile; // live device descriptions by id
	u64 fsgen = 0;
	bool chaos_vt = false;
	int logind_mode = 0;
	// sock / launch
	std::vector<std::string> notes;
	u64 bus_faults = 0, bus_calls = 0;
	std::vector<int> switch_calls;
	std::vector<std::pair<int, std::string>> tries; // (pid, what a libseat process reached out for)
	void on_bus_use(Proc *p) { tries.push_back({p->pid, "logind"}); }
	int n_complete_bad = 0;
	std::function<void(int, int, bool)> complete_hook;
	std::function<void(int)> switch_hook;
	std::function<void(Proc *, int, int, bool)> kill_hook;
	std::function<void(Proc *, const std::string &, const std::vector<std::string> &)> exec_hook;
	std::function<void(Proc *, const char *, const std::string &, int)> fs_hook;
	std::function<void(Proc *, File *, const char *, size_t)> pipe_hook;
	std::function<void(Proc *, int)> exit_hook;
	std::function<void(Proc *, File *, const std::string &, const std::vector<File *> &, long)> send_hook;
	std::function<void(Proc *, File *, const char *, size_t, const std::vector<File *> &)> recv_hook;
	std::function<void(Proc *, bool, int, long)> io_hook;
	std::function<void(Proc *, const struct pollfd *, size_t, long)> pollret_hook;
	std::function<void(Proc *, bool)> pollenter_hook;
	std::function<void(Proc *, int)> signal_hook;
	std::function<void(Proc *, Kind)> fault_hook;
	std::set<File *> app_owned; // descriptors the application owns
	std::map<std::pair<int, int>, bool> app_fds; // (pid, fd) owned by the application
	~Oracle() override;
	Srv *srv_of(Proc *p);
	Conn *conn_of(File *f);
	Conn *conn_new(Srv *s, File *f, bool builtin);
	Conn *newest_conn_of(Proc *p); // connection whose client end the process holds
	Srv *main_srv();
	void idle(Srv &s);
	void quiescent();
	void note_state(Srv &s);

	void on_send(Proc *, File *, const std::string &, const std::vector<File *> &, long) override;
	void on_send_error(Proc *, File *, int) override;
	void on_recv(Proc *, File *, const char *, size_t, const std::vector<File *> &) override;
	void on_recv_eof(Proc *, File *) override;
	void on_accept(Proc *, File *) override;
	void on_sock_release(File *) override;
	void on_open(Proc *, const std::string &, File *, int, int) override;
	void on_dev_ioctl(Proc *, File *, unsigned long, int, bool) override;
	void on_dev_release(File *) override;
	void on_tty_ioctl(Proc *, int, unsigned long, long, int, bool) override;
	void on_vt_switched(int, int) override;
	void on_vt_release_req(int, int) override;
	void on_poll_enter(Proc *, bool) override;
	void on_close_bad(Proc *, int) override;
	void on_poll_ret(Proc *p, const struct pollfd *f, size_t n, long r) override { if (pollret_hook) pollret_hook(p, f, n, r); }
	void on_io(Proc *p, bool w, int fd, long r) override { if (io_hook) io_hook(p, w, fd, r); }
	void on_close(Proc *, int, File *) override;
	void on_fork(Proc *, Proc *) override;
	void on_exit(Proc *, int) override;
	void on_exec(Proc *, const std::string &, const std::vector<std::string> &) override;
	void on_kill(Proc *, int, int, bool) override;
	void on_fs(Proc *, const char *, const std::string &, int) override;
	void on_pipe_write(Proc *, File *, const char *, size_t) override;
	void on_fault(Proc *, Kind) override;
	void on_signal(Proc *, int) override;
	void on_no_fd(Proc *p) override { if (!p->is_daemon) p->nfaults++; }
	void on_fs_change() override { fsgen++; }
	void on_realpath(Proc *, const std::string &, const std::string &, int) override;
	// logind model
	void on_bus(const char *member, bool failed);
	void on_logind_switch(int n);
	void on_logind_take(int maj, int min);
	void on_logind_release(int maj, int min);
	void on_logind_complete(int maj, int min, bool pend);

private:
	Conn *server_conn(Proc *p, File *f);
	void feed(Conn &c, const char *d, size_t n);
	void message(Conn &c, int op, const std::string &body, size_t end);
	void on_enable(Conn &c);
	void on_disable(Conn &c);
	void reply(Conn &c, int op, const std::string &body, size_t end);
	void check_dead(Conn &c, const char *when, const char *props);
	bool dead_or_excused(u32 file);
	bool conflict(Conn &b);
	Req *find_req(Conn &c, int op, bool unacked);
	bool close_justified(Conn &c, std::string &why);
	bool open_error_ok(Conn &c, Req &r);
	bool path_ok(const std::string &p, std::string &canon);
};
Oracle &orc();
void fs_changed(); // symlinks or devices were changed by the environment
