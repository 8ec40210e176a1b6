// C22: seatd-launch with the real seatd, a command and whatever goes wrong.
#include "units.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *P22 = "C22";
enum { CMD_EXIT, CMD_SIGNAL, CMD_CLIENT, CMD_WAIT, CMD_SLEEP, CMD_MISSING, CMD_NONE, CMD_INFO, CMD_BADOPT };
struct Lr {
	Proc *p = nullptr;
	int pid = 0, uid = 0, gid = 0;
	std::vector<std::string> cmd_args;
	Proc *seatd = nullptr; // its first child that runs seatd
	Proc *cmd = nullptr;
	u32 ready_w = 0;
	int forks = 0;
	bool ready = false, started = false, cmd_done = false, exited = false, killed = false, told = false, seatd_hurt = false, stopped = false;
	int cmd_status = 0, status = 0;
	int nfaults = 0;
	std::set<int> fds0; // descriptors it was started with
	Node *there = nullptr; // at the socket path, before
	bool served = false, not_served = false;
	std::set<int> mine; // pids it forked
};
static Lr *L;
static bool alive(Proc *p) { return p && p->st != P_ZOMBIE && p->st != P_DEAD; }
static long cf(const char *k) { return W->plan->get(k); }
static long arg(Op *o, size_t i, long d = 0) { return i < o->a.size() ? o->a[i] : d; }
static int cred_connect(const char *path) {
	int fd = sim_socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	if (fd < 0) return -errno;
	struct sockaddr_un u;
	memset(&u, 0, sizeof u);
	u.sun_family = AF_UNIX;
	strncpy(u.sun_path, path, sizeof u.sun_path - 1);
	int r = sim_connect(fd, (struct sockaddr *)&u, sizeof u);
	int e = errno;
	if (r < 0) {
		sim_close(fd);
		return -e;
	}
	return fd;
}
// ------------------------------------------------------------------ the command
static const char *env_of(Proc *p, const char *k) {
	for (auto &e : p->env)
		if (e.first == k) return e.second.c_str();
	return nullptr;
}
static int command(int, char **) {
	cur->faultable = false;
	for (int i = 1; i < 65; i++)
		if (cur->act[i].h == SIG_IGN && i != SIGCHLD) probe("launch.cmd_ignores");
	long code = cf("code");
	switch (cf("cmd")) {
	case CMD_SIGNAL: proc_exit((int)(code % 31 + 1));
	case CMD_CLIENT: {
		const char *s = env_of(cur, "SEATD_SOCK");
		int fd = s ? cred_connect(s) : -1;
		if (fd < 0) {
			if (fd != -EAGAIN) L->not_served = true;
			break;
		}
		static const char m[4] = {C_OPEN_SEAT, 0, 0, 0};
		sim_send(fd, m, 4, MSG_NOSIGNAL);
		char b[64];
		ssize_t n = 0, k = 1;
		while (n < 4 && k > 0 && G->phase <= PH_HEAL) {
			wait_for(fd_get(cur, fd), POLLIN, ~0ull, PH_HEAL);
			k = sim_recv(fd, b + n, sizeof b - (size_t)n, MSG_DONTWAIT);
			if (k > 0) n += k;
		}
		if (n >= 4 && ((unsigned char)b[0] | (unsigned char)b[1] << 8) == S_SEAT_OPENED) L->served = true, probe("launch.served");
		else L->not_served = true;
		sim_close(fd);
		break;
	}
	case CMD_WAIT: wait_for(nullptr, 0, ~0ull, PH_HEAL); break;
	case CMD_SLEEP: wait_for(nullptr, 0, W->now + (u64)cf("cmdms") * 1000000, PH_HEAL); break;
	}
	return (int)code;
}
// ------------------------------------------------------------------ checks
static void exec_hook(Proc *p, const std::string &path, const std::vector<std::string> &argv) {
	if (p->ppid != L->pid && L->mine.count(p->pid) == 0) return;
	if (path == "/usr/local/bin/seatd") {
		L->seatd = p;
		bool n = false;
		for (size_t i = 1; i < argv.size(); i++) {
			if (argv[i] == "-n" && i + 1 < argv.size()) {
				File *f = fd_get(p, atoi(argv[i + 1].c_str()));
				if (f && f->type == F_PIPE_W) L->ready_w = f->id, n = true;
			}
		}
		if (n) probe("launch.seatd_with_pipe");
		return;
	}
	if (path != "/usr/bin/cmd") return;
	L->cmd = p;
	L->started = true;
	probe("launch.command");
	if (!L->ready) violation(P22, "started-early", "the command is started before seatd signalled readiness");
	Node *n = fs_lookup(G->sock);
	if (n) {
		if (n->uid != L->uid || n->mode & 077) violation(P22, "socket-open", "the command is started while the socket belongs to %d:%d with mode %o", n->uid, n->gid, n->mode);
	} else if (!L->seatd_hurt && !L->nfaults) violation(P22, "no-socket", "the command is started while there is no socket");
	if (p->uid != L->uid || p->euid != L->uid) violation(P22, "privileges-uid", "the command is started with uid %d/%d, the invoker is %d", p->uid, p->euid, L->uid);
	if (p->gid != L->gid || p->egid != L->gid) violation(P22, "privileges-gid", "the command is started with gid %d/%d, the invoker has %d", p->gid, p->egid, L->gid);
	const char *s = env_of(p, "SEATD_SOCK");
	if (!s || G->sock != s) violation(P22, "seatd-sock", "the command is started with SEATD_SOCK=%s", s ? s : "(unset)");
	const char *h = env_of(p, "HOME"), *d = env_of(p, "DISPLAY");
	if (!h || strcmp(h, "/home/alice") || !d || strcmp(d, ":7")) violation(P22, "environment", "the command is started without the invoker's environment");
	for (size_t i = 0; i < p->fds.size(); i++)
		if (p->fds[i].f && !p->fds[i].cloexec && !L->fds0.count((int)i)) violation(P22, "descriptors", "the command is started with descriptor %zu, which is not the invoker's", i);
	for (int i : L->fds0)
		if (!fd_get(p, i)) violation(P22, "descriptors", "the command is started without descriptor %d of the invoker", i);
	if (argv != L->cmd_args) violation(P22, "arguments", "the command is started with other arguments than given");
}
static void note() {
	W->states.insert(mix64((u64)L->ready | L->started << 1 | L->cmd_done << 2 | L->exited << 3 | L->killed << 4 | L->seatd_hurt << 5 | (u64)alive(L->seatd) << 6 |
	                       (u64)L->mine.size() << 7 | (u64)(L->p && L->p->euid) << 10 | (u64)(L->nfaults > 0) << 11 | (u64)(L->status & 0xffff) << 16));
}
static void fork_seen() {
	note();
	for (auto p : W->procs)
		if (p->ppid == L->pid) L->mine.insert(p->pid);
}
static void exit_hook(Proc *p, int st) {
	fork_seen();
	if (p == L->cmd) {
		L->cmd_done = true;
		L->cmd_status = st;
		return;
	}
	if (p != L->p) return;
	L->exited = true;
	L->status = st;
	if (!WIFEXITED(st)) {
		if (!L->killed && !p->crashed) violation(P22, "launch-killed", "seatd-launch is killed by signal %d", WTERMSIG(st));
		return;
	}
	int code = WEXITSTATUS(st);
	long k = cf("cmd");
	if (k == CMD_INFO) {
		if (code != 0) violation(P22, "info-status", "seatd-launch -h or -v exits with status %d", code);
		if (L->mine.size()) violation(P22, "info-starts", "seatd-launch -h or -v starts something");
	} else if (k == CMD_NONE || k == CMD_BADOPT) {
		if (code == 0) violation(P22, "exit-status", "seatd-launch exits with status 0 although it was called wrongly");
		if (L->mine.size()) violation(P22, "starts-nothing", "seatd-launch starts something although it was called wrongly");
	} else if (L->started) {
		if (!L->cmd_done) violation(P22, "leaves-command", "seatd-launch exits while the command runs");
		else {
			int want = WIFEXITED(L->cmd_status) ? WEXITSTATUS(L->cmd_status) : 128 + WTERMSIG(L->cmd_status);
			if (code != want) violation(P22, "exit-status", "seatd-launch exits with status %d, the command's status is %d", code, want);
			probe(WIFEXITED(L->cmd_status) ? "launch.exit_code" : "launch.exit_signal");
		}
	} else {
		probe("launch.failed");
		if (code == 0) violation(P22, "exit-status", "seatd-launch exits with status 0 although the command was not started");
		else if (!L->nfaults && !L->seatd_hurt && !cf("sockfile") && !cf("fdlimit") && k != CMD_MISSING)
			violation(P22, "does-not-start", "seatd-launch exits with status %d although nothing went wrong", code);
	}
	// every child that is not the command is its seatd, started or still to be
	for (auto q : W->procs)
		if (L->mine.count(q->pid) && q != L->cmd && alive(q) && q->ppid == L->pid) {
			bool told = false;
			for (int x : p->killed_sent) told |= x / 100 == q->pid && (x % 100 == SIGTERM || x % 100 == SIGINT);
			if (!told) violation(P22, "seatd-left", "seatd-launch exits without telling seatd to terminate");
		}
}
static void kill_hook(Proc *p, int pid, int sig, bool reaped) {
	if (p != L->p) return;
	fork_seen();
	trace("seatd-launch: kill(%d, %d)%s", pid, sig, reaped ? " REAPED" : "");
	if (reaped) violation(P22, "kill-reaped", "seatd-launch sends signal %d to process %d which it already reaped", sig, pid);
	else if (pid <= 0 || !L->mine.count(pid)) violation(P22, "kill-foreign", "seatd-launch sends signal %d to process %d which is not its child", sig, pid);
}
// ------------------------------------------------------------------ the environment
static int environment() {
	for (auto o : ops_of(4)) {
		if (W->stop || G->phase > PH_MAIN) break;
		sim_sched_yield();
		const std::string &v = o->verb;
		if (v == "sleep") wait_for(nullptr, 0, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
		else if (v == "waitready") {
			u64 dl = W->now + (u64)arg(o, 0) * 1000000;
			while (!L->ready && W->now < dl && G->phase == PH_MAIN) {
				wait_for(nullptr, 0, W->now + 5000, PH_MAIN);
				sim_sched_yield();
			}
		} else if (v == "waitcmd") {
			u64 dl = W->now + (u64)arg(o, 0) * 1000000;
			while (!L->started && W->now < dl && G->phase == PH_MAIN) {
				wait_for(nullptr, 0, W->now + 5000, PH_MAIN);
				sim_sched_yield();
			}
		} else if (v == "killseatd") {
			if (alive(L->seatd)) {
				L->seatd_hurt = true;
				probe(L->started ? "launch.seatd_dies_late" : L->ready ? "launch.seatd_dies_ready" : "launch.seatd_dies_early");
				post_signal(L->seatd, (int)arg(o, 0));
			}
		} else if (v == "killcmd") {
			if (alive(L->cmd)) post_signal(L->cmd, (int)arg(o, 0));
		} else if (v == "killlaunch") {
			if (alive(L->p)) {
				L->killed = true;
				probe("launch.killed");
				post_signal(L->p, (int)arg(o, 0));
			}
		} else if (v == "stop") {
			Proc *t = arg(o, 0) == 0 ? L->p : arg(o, 0) == 1 ? L->seatd : L->cmd;
			if (alive(t)) {
				post_signal(t, SIGSTOP);
				wait_for(nullptr, 0, W->now + (u64)arg(o, 1) * 1000, PH_MAIN);
				post_signal(t, SIGCONT);
			}
		} else if (v == "spy") { // somebody else
			cur->euid = cur->egid = 1001;
			int fd = cred_connect(G->sock.c_str());
			cur->euid = cur->egid = 0;
			if (fd >= 0) violation(P22, "socket-open", "another user can connect to the socket of seatd-launch's seatd");
			probe("launch.spy");
		}
	}
	while (!W->stop) wait_for(nullptr, 0, ~0ull, PH_END);
	return 0;
}
static Proc *spawn_launch(Plan &p) {
	Proc *l = proc_new("launch", 20, IMG_W, nullptr);
	std::vector<std::string> a = {"seatd-launch"};
	long k = p.get("cmd");
	switch (p.get("lvl")) {
	case 1: a.insert(a.end(), {"-l", "debug"}); break;
	case 2: a.push_back("-lsilent"); break;
	case 3: a.insert(a.end(), {"-l", "error"}); break;
	}
	if (k == CMD_INFO) a.push_back(p.get("code") & 1 ? "-h" : "-v");
	if (k == CMD_BADOPT) a.push_back("-x");
	if (p.get("dashes") || k == CMD_NONE) {
		if (p.get("dashes")) a.push_back("--");
	}
	if (k != CMD_NONE) {
		L->cmd_args = {k == CMD_MISSING ? "missing" : p.get("abs") ? "/usr/bin/cmd" : "cmd"};
		static const char *X[] = {"one", "-h", "--", "-l", "", "two words", "-v", "-n"};
		for (long i = 0; i < p.get("nargs"); i++) L->cmd_args.push_back(X[(p.get("argoff") + i * 3) % 8]);
		a.insert(a.end(), L->cmd_args.begin(), L->cmd_args.end());
	}
	l->argv_store = a;
	for (auto &s : l->argv_store) l->argv_ptr.push_back(&s[0]);
	l->argv_ptr.push_back(nullptr);
	l->entry = [l]() { return W_main((int)l->argv_store.size(), l->argv_ptr.data()); };
	l->ppid = 1;
	l->faultable = true;
	l->fd_limit = (int)p.get("fdlimit", 1024);
	for (size_t i = 0; i < l->fds.size(); i++)
		if (l->fds[i].f) L->fds0.insert((int)i);
	L->uid = (int)p.get("uid");
	L->gid = L->uid;
	l->uid = L->uid;
	l->gid = L->gid;
	l->euid = l->suid = 0;
	l->egid = l->sgid = p.get("setgid") ? 0 : L->gid;
	l->env = {{"PATH", "/usr/bin"}, {"HOME", "/home/alice"}, {"DISPLAY", ":7"}, {"SEATD_VTBOUND", "0"}};
	if (p.get("presock")) l->env.push_back({"SEATD_SOCK", "/tmp/elsewhere.sock"});
	if (p.get("chldign")) l->act[SIGCHLD].h = SIG_IGN;
	return l;
}
static void launch_run(Plan &p) {
	setup_fs();
	exec_reg["/usr/local/bin/seatd"] = {"seatd", IMG_S, [](int c, char **v) { return S_main(c, v); }};
	exec_reg["/usr/bin/cmd"] = {"cmd", IMG_NONE, command};
	if (long k = p.get("sockfile")) {
		L->there = node_new(G->sock, k == 1 ? N_SOCK : N_REG, 0777, 0, 0);
	}
	L->p = spawn_launch(p);
	L->pid = L->p->pid;
	orc().exec_hook = [](Proc *p, const std::string &path, const std::vector<std::string> &v) {
		fork_seen();
		exec_hook(p, path, v);
		note();
	};
	orc().exit_hook = exit_hook;
	orc().kill_hook = kill_hook;
	orc().fault_hook = [](Proc *pr, Kind k) {
		fork_seen();
		bool fatal = k != K_EINTR && k != K_SPURIOUS_POLL && k != K_WAITPID && k != K_EAGAIN_SEND && k != K_SHORT_READ && k != K_SHORT_WRITE;
		if (fatal && (pr == L->p || L->mine.count(pr->pid))) L->nfaults++;
	};
	orc().pipe_hook = [](Proc *pr, File *f, const char *d, size_t n) {
		if (pr != L->seatd || f->id != L->ready_w) return;
		for (size_t i = 0; i < n; i++)
			if (d[i] == '\n') L->ready = true;
	};
	Proc *s = proc_new("init", 4, IMG_NONE, environment);
	s->ppid = 1;
	run_world(40000);
	if (W->stop) return;
	W->faults_on = false;
	for (auto q : W->procs) q->stopped = false;
	G->phase = PH_HEAL;
	if (!settle("after faults stopped")) return;
	note();
	if (!L->exited && !(L->started && !L->cmd_done && p.get("cmd") == CMD_WAIT)) {
		violation(P22, "does-not-exit", "after faults stopped: seatd-launch hangs%s", L->started ? L->cmd_done ? " although the command ended" : "" : " without starting the command");
		return;
	}
	if (L->there && fs_lookup(G->sock) != L->there) violation(P22, "displaces", "seatd-launch displaces what was at the socket path");
	if (L->there && (L->there->mode != 0777 || L->there->uid)) violation(P22, "takes-over", "seatd-launch changes the owner or mode of a socket that is not that of its seatd");
	G->phase = PH_TOUR;
	if (!settle("when the command ends")) return;
	if (!L->exited) {
		violation(P22, "does-not-exit", "seatd-launch does not exit after the command ended");
		return;
	}
	if (L->not_served && !L->nfaults && !L->seatd_hurt && !L->killed) violation(P22, "not-served", "the command is not served by seatd");
	if (L->killed) return; // nobody is left to end seatd
	for (auto q : W->procs)
		if (q->img == IMG_S && alive(q)) {
			violation(P22, "seatd-left", "seatd runs on after seatd-launch exited");
			return;
		}
	if (!L->there && !L->nfaults && !L->seatd_hurt && fs_lookup(G->sock)) {
		violation(P22, "socket-left", "the socket is still there after seatd-launch and its seatd ended");
		return;
	}
	probe("launch.clean_end");
}
void drive_launch(Plan &p) {
	G = new Game;
	L = new Lr;
	launch_run(p);
	auto &o = orc();
	o.exec_hook = nullptr;
	o.exit_hook = nullptr;
	o.kill_hook = nullptr;
	o.fault_hook = nullptr;
	o.pipe_hook = nullptr;
	delete L;
	L = nullptr;
}
