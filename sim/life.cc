// C21: the life of the daemon's socket path: starts, refusals, terminations, crashes.
#include "units.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

enum { A_N = 1, A_Z = 2, A_U = 4, A_G = 8, A_BADU = 16, A_BADG = 32, A_ROOT = 64, A_BADN = 128, A_BADL = 256, A_H = 512, A_V = 1024, A_UNK = 2048, A_LEVEL = 4096 };
static const char *P21 = "C21";
struct Life {
	Proc *p = nullptr;
	int pid = 0;
	long fl = 0;
	File *ready_r = nullptr; // the supervisor's end
	u32 ready_w = 0;
	int newlines = 0, rfd = 9;
	bool bound = false, listening = false, gone = false, termed = false, exited = false, invalid = false, info = false, conflict = false, rival = false;
	Node *own = nullptr;    // the socket it created
	Node *before = nullptr; // what was there
	NType before_type = N_REG;
	int fired[K_MAX] = {};
	int nfaults() const {
		int n = 0;
		for (int k : fired) n += k;
		return n;
	}
};
static std::vector<Life *> *lives;
static bool alive(Proc *p) { return p && p->st != P_ZOMBIE && p->st != P_DEAD; }
static Life *life_of(Proc *p) {
	for (auto l : *lives)
		if (l->p == p) return l;
	return nullptr;
}
static Life *start(long fl, bool order, int rfd) {
	Life *l = new Life;
	l->fl = fl;
	std::vector<std::string> a;
	l->info = fl & (A_H | A_V);
	l->invalid = fl & (A_BADU | A_BADG | A_BADN | A_BADL | A_UNK);
	if (fl & A_Z && fl & (A_U | A_G | A_ROOT)) l->conflict = true;
	auto add = [&](std::initializer_list<const char *> x) {
		for (auto s : x) a.push_back(s);
	};
	if (fl & A_Z && order) add({"-z"});
	if (fl & A_N) add({"-n", rfd == 9 ? "9" : rfd ? "3" : "0"});
	if (fl & A_BADN) add({"-n", "-1"});
	if (fl & A_U) add({"-u", "alice"});
	if (fl & A_ROOT) add({"-u", "root"});
	if (fl & A_BADU) add({"-u", "mallory"});
	if (fl & A_G) add({"-g", "seat"});
	if (fl & A_BADG) add({"-g", "nobodies"});
	if (fl & A_BADL) add({"-l", "loud"});
	static const char *LV[] = {"debug", "info", "error", "silent"};
	if (fl & A_LEVEL) add({"-l", LV[fl / A_LEVEL / 2 & 3]});
	if (fl & A_UNK) add({"-x"});
	if (fl & A_H) add({"-h"});
	if (fl & A_V) add({"-v"});
	if (fl & A_Z && !order) add({"-z"});
	Proc *p = spawn_daemon(alloc_actor(), a, W->plan->get("vt", 1));
	l->p = p;
	l->pid = p->pid;
	if (fl & A_N) {
		File *r = file_new(F_PIPE_R), *w = file_new(F_PIPE_W);
		r->pipe = w->pipe = new PipeBuf;
		r->pipe->readers = r->pipe->writers = 1;
		if ((int)p->fds.size() <= rfd) p->fds.resize((size_t)rfd + 1);
		if (p->fds[(size_t)rfd].f) file_unref(p->fds[(size_t)rfd].f);
		p->fds[(size_t)rfd].f = w;
		p->fds[(size_t)rfd].cloexec = false;
		l->rfd = rfd;
		l->ready_w = w->id;
		l->ready_r = r;
	}
	l->before = fs_lookup(G->sock);
	if (l->before) l->before_type = l->before->type;
	lives->push_back(l);
	probe("sock.start");
	return l;
}
static void check_ready(Life *l) {
	Node *n = fs_lookup(G->sock);
	if (!l->bound || n != l->own || l->gone) {
		violation(P21, "ready-early", "readiness is signalled but the socket is not there");
		return;
	}
	if (!n->listener || !n->listener->listening) violation(P21, "ready-early", "readiness is signalled but the socket does not listen");
	if (l->fl & (A_U | A_G | A_ROOT)) {
		int u = l->fl & A_ROOT ? 0 : l->fl & A_U ? 1000 : 0, g = l->fl & A_G ? 900 : 0;
		if ((n->mode & 0777) != 0770) violation(P21, "ready-mode", "readiness is signalled but the socket has mode %o", n->mode);
		if (n->uid != u || n->gid != g) violation(P21, "ready-owner", "readiness is signalled but the socket belongs to %d:%d, asked for %d:%d", n->uid, n->gid, u, g);
	}
}
static void fs_hook(Proc *p, const char *what, const std::string &path, int v) {
	Life *l = life_of(p);
	if (!l) return;
	Node *n = fs_lookup(path);
	if (!strcmp(what, "unlink")) {
		if (path != G->sock) violation(P21, "unlink-other", "seatd removes %s", path.c_str());
		else if (l->bound) {
			if (n != l->own) violation(P21, "unlink-foreign", "seatd removes a socket that is not its own");
			l->gone = true;
		} else if (l->fl & A_Z) violation(P21, "unlink-z", "seatd -z removes what it found at the socket path");
		else if (l->invalid || l->info || l->conflict) violation(P21, "unlink-refusal", "seatd removes the socket although it does not start");
		else if (n->type != N_SOCK) violation(P21, "unlink-nonsocket", "seatd removes a file that is not a socket");
		else {
			probe("sock.stale_replaced");
			for (auto o : *lives)
				if (o != l && o->own == n) o->gone = true;
		}
	} else if (!strcmp(what, "bind")) {
		if (path != G->sock) violation(P21, "bind-other", "seatd creates its socket at %s", path.c_str());
		if (l->invalid || l->info || l->conflict) violation(P21, "bind-refusal", "seatd creates its socket although its arguments are invalid");
		l->bound = true;
		l->own = n;
		for (auto o : *lives)
			if (o != l && alive(o->p)) o->rival = true;
	} else if (!strcmp(what, "listen")) {
		l->listening = true;
		if (l->fl & (A_U | A_G | A_ROOT) && l->own && l->own->mode & 2)
			violation(P21, "open-early", "seatd listens while everybody may connect (mode %o) although the socket is for one user or group", l->own->mode);
	}
	else if (!strcmp(what, "chmod") || !strcmp(what, "chown")) {
		if (path != G->sock || n != l->own) violation(P21, "chmod-foreign", "seatd changes the mode or owner of %s, which is not its socket", path.c_str());
		else if (l->fl & A_Z) violation(P21, "chmod-z", "seatd -z changes the mode or owner of its socket");
		else if (!strcmp(what, "chmod") && !(l->fl & (A_U | A_G | A_ROOT)) && v & 022) violation(P21, "chmod-open", "seatd opens its socket to others (mode %o)", v);
	}
}
static void exit_hook(Proc *p, int st) {
	Life *l = life_of(p);
	if (!l) return;
	l->exited = true;
	Node *n = fs_lookup(G->sock);
	bool mine = l->bound && n == l->own;
	if (WIFEXITED(st)) {
		int code = WEXITSTATUS(st);
		if (mine && !l->fired[K_UNLINK]) violation(P21, "socket-left", "seatd exits with status %d but leaves its socket behind", code);
		if (l->info && !(l->invalid || l->conflict)) {
			if (code != 0) violation(P21, "info-status", "seatd -h or -v exits with status %d", code);
		} else if (l->invalid || l->conflict) {
			if (code == 0 && !l->info) violation(P21, "refusal-status", "seatd exits with status 0 although its arguments are invalid");
		} else if (!l->bound || !l->listening) {
			if (code == 0) violation(P21, "failure-status", "seatd exits with status 0 although it did not start");
			if (!l->nfaults() && !l->termed) {
				// why did it refuse?
				bool there = l->before && (l->before_type != N_SOCK || l->fl & A_Z);
				if (!there && !l->rival) violation(P21, "refuses-start", "seatd refuses to start although nothing is in the way");
			}
			probe("sock.refused");
		} else if (l->termed && code != 0 && !l->nfaults()) violation(P21, "exit-status", "seatd exits with status %d after a termination signal", code);
		else if (!l->termed && code == 0) violation(P21, "exit-status", "seatd exits with status 0 although nobody asked it to terminate");
		else if (!l->termed && !l->nfaults()) violation(P21, "exit-unasked", "seatd exits with status %d unasked", code);
		if (mine == false && l->bound) probe("sock.removed_on_exit");
	} else if (mine && WTERMSIG(st) != SIGKILL && !p->crashed && !l->fired[K_UNLINK])
		violation(P21, "socket-left", "seatd is killed by signal %d and leaves its socket behind", WTERMSIG(st));
}
static bool refuses(Life *l) { return l->invalid || l->info || l->conflict; }
static Life *running() {
	for (size_t i = lives->size(); i-- > 0;)
		if (alive((*lives)[i]->p) && !refuses((*lives)[i])) return (*lives)[i];
	return nullptr;
}
static int do_connect(int uid, int gid) {
	int fd = sim_socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
	if (fd < 0) harness_error("socket");
	struct sockaddr_un u;
	memset(&u, 0, sizeof u);
	u.sun_family = AF_UNIX;
	strcpy(u.sun_path, G->sock.c_str());
	cur->euid = uid;
	cur->egid = gid;
	int r = sim_connect(fd, (struct sockaddr *)&u, sizeof u);
	int e = errno;
	cur->euid = cur->egid = 0;
	if (r < 0) {
		sim_close(fd);
		return -e;
	}
	return fd;
}
static long arg(Op *o, size_t i, long d = 0) { return i < o->a.size() ? o->a[i] : d; }
static int supervisor() {
	for (auto o : ops_of(4)) {
		if (W->stop || G->phase > PH_MAIN) break;
		const std::string &v = o->verb;
		sim_sched_yield();
		if (v == "sleep") wait_for(nullptr, 0, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
		else if (v == "start") {
			// a second daemon only ever starts with -z, and not while one without is starting
			bool skip = false;
			for (auto r : *lives) {
				if (!alive(r->p) || refuses(r)) continue;
				if (!(arg(o, 0) & (A_Z | A_BADU | A_BADG | A_BADL | A_BADN | A_UNK | A_H | A_V))) skip = true;
				if (!(r->fl & A_Z) && !(r->bound && r->listening)) skip = true;
			}
			if (skip) continue;
			start(arg(o, 0), arg(o, 1), arg(o, 2) == 1 ? 0 : arg(o, 2) == 2 ? 3 : 9);
		} else if (v == "waitready") {
			u64 dl = W->now + (u64)arg(o, 0) * 1000;
			while (W->now < dl && G->phase == PH_MAIN) {
				Life *l = running();
				if (!l || l->newlines) break;
				wait_for(l->ready_r, POLLIN, std::min<u64>(dl, W->now + 20000), PH_MAIN);
				sim_sched_yield();
			}
		} else if (v == "dropreader") {
			for (auto l : *lives)
				if (l->ready_r) {
					probe("sock.reader_gone");
					file_unref(l->ready_r);
					l->ready_r = nullptr;
				}
		} else if (v == "kill") {
			// the one that serves: a second one may be on its way to refusing
			Life *l = nullptr;
			for (auto x : *lives)
				if (alive(x->p) && (!l || !(l->bound && l->listening))) l = x;
			if (!l) continue;
			if (arg(o, 0) != SIGKILL) l->termed = true;
			trace("signal %ld to %d", arg(o, 0), l->pid);
			probe(l->newlines ? "sock.kill_ready" : l->bound ? "sock.kill_bound" : "sock.kill_early");
			post_signal(l->p, (int)arg(o, 0));
		} else if (v == "connect") {
			Life *l = nullptr;
			for (auto x : *lives)
				if (x->newlines && alive(x->p) && !x->termed) l = x;
			int who = (int)arg(o, 0); // root, alice, a member of seat, somebody else
			int uid = who == 0 ? 0 : who == 1 ? 1000 : 1001 + who, gid = who == 2 ? 900 : uid;
			int r = do_connect(uid, gid);
			if (l && !l->termed && !l->fired[K_POLL_ERR] && alive(l->p)) {
				probe("sock.connect");
				bool allowed = who == 0 || (who == 1 && l->fl & A_U && !(l->fl & A_ROOT)) || (who == 2 && l->fl & A_G);
				if (allowed && r < 0 && r != -EAGAIN) violation(P21, "connect-fails", "connecting to a daemon that signalled readiness fails with %s", strerror(-r));
				if (!allowed && l->fl & (A_U | A_G | A_ROOT) && r >= 0) violation(P21, "connect-foreign", "somebody who is neither the owner nor in the group of the socket can connect");
			}
			if (r >= 0) {
				if (arg(o, 1)) {
					static const char m[4] = {C_OPEN_SEAT, 0, 0, 0};
					sim_send(r, m, 4, MSG_NOSIGNAL);
					wait_for(fd_get(cur, r), POLLIN, W->now + 100000 * (u64)arg(o, 1), PH_MAIN);
				}
				sim_close(r);
			}
		} else if (v == "waitexit") {
			u64 t0 = W->now;
			while (G->phase == PH_MAIN && running() && running()->termed && W->now < t0 + 3000000) {
				wait_for(nullptr, 0, W->now + 10000, PH_MAIN);
				sim_sched_yield();
			}
		} else if (v == "node") {
			if (running()) continue;
			bool any = false;
			for (auto l : *lives) any |= alive(l->p);
			if (any) continue;
			long k = arg(o, 0);
			if (k == 5) node_remove(G->sock);
			else if (!fs_lookup(G->sock)) {
				NType t = k == 0 ? N_SOCK : k == 1 ? N_REG : k == 2 ? N_LINK : k == 3 ? N_DIR : N_NULL;
				Node *n = node_new(G->sock, t, 0777, 0, 0);
				if (t == N_LINK) {
					n->target = arg(o, 1) ? "/run/other.sock" : "/etc/shadow";
					if (!fs_lookup("/run/other.sock")) node_new("/run/other.sock", N_SOCK, 0777, 0, 0);
				}
			}
		}
		u64 st = 0;
		if (Life *l = running()) st = 1 + l->bound + l->listening * 2 + (l->newlines > 0) * 4 + l->termed * 8 + (u64)l->fl * 16;
		Node *n = fs_lookup(G->sock);
		W->states.insert(mix64(st * 64 + (n ? 1 + (u64)n->type + (n->listener ? 16u : 0u) : 0)));
	}
	while (!W->stop) wait_for(nullptr, 0, ~0ull, PH_END);
	return 0;
}
static int served;
static int heal_client() {
	Life *l = lives->back();
	int uid = l->fl & A_U ? 1000 : 0, gid = l->fl & A_G ? 900 : uid;
	int fd = do_connect(uid, gid);
	if (fd < 0) {
		violation(P21, "connect-fails", "connecting to a daemon that signalled readiness fails with %s", strerror(-fd));
		return 0;
	}
	static const char m[4] = {C_OPEN_SEAT, 0, 0, 0};
	sim_send(fd, m, 4, MSG_NOSIGNAL);
	wait_for(fd_get(cur, fd), POLLIN, ~0ull, PH_TOUR);
	char b[64];
	ssize_t n = sim_recv(fd, b, sizeof b, MSG_DONTWAIT);
	if (n >= 4 && ((unsigned char)b[0] | (unsigned char)b[1] << 8) == S_SEAT_OPENED) served = 1;
	sim_close(fd);
	return 0;
}
static void sock_run(Plan &p) {
	setup_fs();
	orc().fs_hook = fs_hook;
	orc().exit_hook = exit_hook;
	orc().fault_hook = [](Proc *pr, Kind k) {
		Life *l = life_of(pr);
		if (l && k != K_EINTR && k != K_SHORT_READ && k != K_SHORT_WRITE && k != K_SPURIOUS_POLL && k != K_EAGAIN_SEND) l->fired[k]++;
	};
	orc().pipe_hook = [](Proc *pr, File *f, const char *d, size_t n) {
		Life *l = life_of(pr);
		if (!l || f->id != l->ready_w) return;
		for (size_t i = 0; i < n; i++)
			if (d[i] == '\n') l->newlines++;
		if (l->newlines != 1) violation(P21, "ready-once", "readiness is signalled %d times", l->newlines);
		check_ready(l);
		probe("sock.ready");
	};
	orc().signal_hook = [](Proc *pr, int sig) {
		Life *l = life_of(pr);
		if (l && (sig == SIGTERM || sig == SIGINT)) l->termed = true;
	};
	Proc *s = proc_new("init", 4, IMG_NONE, supervisor);
	s->ppid = 1;
	run_world(40000);
	if (W->stop) return;
	W->faults_on = false;
	G->phase = PH_HEAL;
	if (!settle("after faults stopped")) return;
	auto states = [&](const char *when) {
		for (auto l : *lives) {
			if (!alive(l->p)) continue;
			if (refuses(l)) violation(P21, "no-exit", "%s: seatd with invalid arguments keeps running", when);
			else if (l->termed) violation(P21, "does-not-exit", "%s: seatd does not exit after a termination signal", when);
			else if (!l->bound || !l->listening || fs_lookup(G->sock) != l->own) violation(P21, "runs-without", "%s: seatd runs without its socket", when);
			else if (l->ready_w && fd_get(l->p, l->rfd) && fd_get(l->p, l->rfd)->id == l->ready_w) violation(P21, "ready-kept", "%s: seatd keeps the descriptor it signalled readiness on", when);
			else if (l->fl & A_N && l->newlines != 1 && !l->fired[K_WRITE_ERR] && l->ready_r) violation(P21, "ready-never", "%s: seatd runs but did not signal readiness", when);
		}
	};
	states("after faults stopped");
	if (W->stop) return;
	// end whatever runs
	for (auto l : *lives)
		if (alive(l->p)) {
			l->termed = true;
			post_signal(l->p, p.get("healsig") ? SIGINT : SIGTERM);
		}
	if (!settle("after SIGTERM")) return;
	states("after SIGTERM");
	if (W->stop) return;
	// and start anew: a stale socket is no obstacle, anything else is
	Node *n = fs_lookup(G->sock);
	if (n && n->type != N_SOCK) {
		Life *l = start(p.get("healflags"), false, 9);
		if (!settle("when starting with a file in the way")) return;
		if (alive(l->p) || fs_lookup(G->sock) != n) violation(P21, "replaces", "seatd starts although a file that is not a socket is in the way");
		probe("sock.heal_blocked");
		node_remove(G->sock);
	} else if (n) {
		Life *l = start(A_Z | A_N, false, 9);
		if (!settle("when starting with -z and a socket in the way")) return;
		if (alive(l->p) || fs_lookup(G->sock) != n) violation(P21, "replaces", "seatd -z starts although a socket is in the way");
		probe("sock.heal_stale");
	}
	if (W->stop) return;
	Life *l = start(p.get("healflags"), false, 9);
	if (!settle("when starting")) return;
	if (!alive(l->p) || l->newlines != 1) {
		violation(P21, "no-restart", "seatd does not become ready although nothing is in the way any more");
		return;
	}
	served = 0;
	Proc *c = proc_new("client", 11, IMG_NONE, heal_client);
	c->ppid = 1;
	if (!settle("with a client")) return;
	if (!served) violation(P21, "not-served", "a client of a daemon that signalled readiness is not served");
	G->phase = PH_TOUR;
	l->termed = true;
	post_signal(l->p, p.get("healsig") ? SIGTERM : SIGINT);
	if (!settle("at the end")) return;
	states("at the end");
	if (fs_lookup(G->sock)) violation(P21, "socket-left", "the socket is still there after seatd ended");
}
void drive_sock(Plan &p) {
	G = new Game;
	lives = new std::vector<Life *>;
	sock_run(p);
	for (auto l : *lives) delete l;
	delete lives;
	lives = nullptr;
	orc().exit_hook = nullptr;
	orc().fs_hook = nullptr;
}
