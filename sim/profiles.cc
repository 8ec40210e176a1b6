// Plan generators: what a simulated run consists of. Everything is drawn from the seed.
#include "profiles.h"
#include <errno.h>
#include <signal.h>

enum { EVENT_R = 1, EVENT_W = 4 }; // include/poller.h
static const double PRE[] = {0, 0.02, 0.1, 0.3, 0.6};
struct G_ {
	Rng r;
	Plan &p;
	G_(u64 seed, Plan &pl) : r(seed), p(pl) { p.rate.assign(K_MAX, 0); }
	void op(int actor, const char *v, std::vector<long> a = {}, const std::string &s = "") {
		Op o;
		o.actor = actor;
		o.verb = v;
		o.a = std::move(a);
		o.s = s;
		p.ops.push_back(o);
	}
	void cf(const char *k, long v) { p.cfg[k] = v; }
	void cfa(const char *k, int actor, long v) { p.cfg[k + std::to_string(actor)] = v; }
	double some(double hi, double pr = 0.5) { return r.chance(pr) ? hi * (0.1 + 0.9 * (r.below(1000) / 1000.0)) : 0; }
	long dev() {
		switch (r.below(10)) {
		case 0: case 1: case 2: return 140 + r.below(2); // DRM
		case 3: return 142 + r.below(3);
		case 4: return 200 + r.below(32);
		default: return r.below(5);
		}
	}
	void sched() {
		p.rate[K_PREEMPT] = PRE[r.below(5)];
		p.rate[K_SIGDELAY] = r.chance(0.6) ? 0.9 : 0;
		p.rate[K_VTDELAY] = some(0.6, 0.4);
	}
	// faults which a correct program hides
	void soft() {
		p.rate[K_SHORT_READ] = some(0.5, 0.4);
		p.rate[K_SHORT_WRITE] = some(0.4, 0.4);
		p.rate[K_EINTR] = some(0.15, 0.3);
		p.rate[K_SPURIOUS_POLL] = some(0.1, 0.3);
		p.rate[K_EAGAIN_SEND] = some(0.3, 0.25);
	}
	// failing system calls and allocations
	void hard(double level) {
		p.rate[K_ALLOC] = some(0.08 * level);
		p.rate[K_OPEN_DEV] = some(0.2 * level);
		p.rate[K_IOCTL_DEV] = some(0.1 * level);
		p.rate[K_DUP] = some(0.15 * level);
		p.rate[K_ACCEPT] = some(0.15 * level);
		p.rate[K_REALPATH] = some(0.1 * level);
		p.rate[K_PEERCRED] = some(0.1 * level);
		p.rate[K_FCNTL] = some(0.1 * level);
	}
};

// ------------------------------------------------------------------ sessions on the daemon
struct SeatOpt {
	int vt = -1;            // -1: either
	double app = 0.15;      // probability of a libseat application per client
	double mal = 0.08;      // malformed client
	double hard = 0.15;     // probability of hard faults
	double tty = 0;         // probability of failing terminal calls
	double kd = 0.05;       // probability of failing keyboard and screen modes
	double errs = 0;        // probability of socket errors
	double backlog = 0.15;  // probability of tiny socket buffers and stalls
	double devheavy = 0.15;
	double kill = 0.25;
	double term = 0.1;
	double sw = 1;          // weight of switching
	double fsw = 0.15;      // file system changes
	int maxcli = 5;
	double crowd = 0.01; // many connections that do not ask for the seat
	double cycle = 0.04;    // devices held, opened and closed across a disable
	bool many = false;      // more than 128 devices
};
static void malformed(G_ &g, int a) {
	switch (g.r.below(9)) {
	case 0: g.op(a, "raw", {(long)g.r.below(3)}, "ff00000000"); break;
	case 1: g.op(a, "raw", {0}, "0100ffff41414141"); break;
	case 2: g.op(a, "raw", {0}, "030006000100414141"); break;
	case 3: g.op(a, "raw", {0}, "04000200abcd"); break;
	case 4: g.op(a, "raw", {0}, "0300040000012f00"); break; // path length beyond the message
	case 5: {
		std::string s;
		for (int i = 0, n = g.r.range(1, 300); i < n; i++) {
			char b[4];
			snprintf(b, sizeof b, "%02x", g.r.below(4) ? g.r.below(8) : g.r.below(256));
			s += b;
		}
		g.op(a, "raw", {(long)g.r.below(5)}, s);
		break;
	}
	case 6: g.op(a, "fds", {(long)g.r.range(1, 60), (long)g.r.below(2)}); break;
	case 7: g.op(a, "raw", {0}, "0300050003002f6162"); break; // no terminating zero
	case 8: g.op(a, "raw", {0}, "03000600040041004100"); break; // zero inside
	}
}
static void seat_plan(u64 seed, Plan &p, const SeatOpt &o) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	int vt = o.vt >= 0 ? o.vt : (int)r.below(2);
	g.cf("vt", vt);
	g.sched();
	if (r.chance(0.6)) g.soft();
	if (r.chance(o.hard)) g.hard(r.chance(0.5) ? 1 : 0.3);
	if (r.chance(o.tty)) p.rate[K_OPEN_TTY] = g.some(0.1), p.rate[K_IOCTL_TTY] = g.some(0.1);
	if (r.chance(o.errs)) p.rate[K_SEND_ERR] = g.some(0.05), p.rate[K_RECV_ERR] = g.some(0.05);
	Rng kr(seed ^ 0x4bd);
	Rng fr(seed ^ 0xf111);
	if (fr.chance(0.08)) g.cf("dmask", fr.below(16));
	bool many = o.many && kr.chance(0.3);
	if (vt && kr.chance(o.kd)) p.rate[K_IOCTL_KD] = kr.chance(0.5) ? 0.5 : 0.1;
	bool small = r.chance(o.backlog);
	if (small) g.cf("sockcap", r.range(8, 120));
	int n = r.range(1, o.maxcli);
	if (!vt && fr.chance(0.03)) n = fr.range(6, 18);
	int fragstyle = (int)r.below(4);
	for (int i = 0; i < n; i++) {
		int a = 10 + i;
		bool app = !small && r.chance(o.app);
		g.cfa("cls", a, app);
		g.cfa("ack", a, r.chance(0.35));
		g.cfa("end", a, r.below(4));
		if (app && r.chance(0.3)) g.cfa("reopen", a, 1);
		long frag = fragstyle == 0 ? 0 : fragstyle == 1 ? (long)r.below(6) : r.chance(0.2) ? 1 : 0;
		int myvt = 1 + (int)r.below(3);
		if (r.chance(0.6)) g.op(a, "pause", {(long)r.below(3000)});
		if (vt && r.chance(0.75)) g.op(a, "waitvt", {myvt});
		int life = r.chance(0.25) ? 2 : 1;
		for (int l = 0; l < life; l++) {
			if (app) g.op(a, "open", {1});
			else {
				g.op(a, "connect");
				if (!r.chance(0.04)) g.op(a, "req", {C_OPEN_SEAT, 0, frag});
			}
			bool stall = !app && r.chance(small ? 0.6 : 0.08);
			int m = r.range(1, 14);
			if (!app && r.chance(0.8)) g.op(a, "wait", {(long)r.below(600)});
			if (stall) g.op(a, "stall");
			bool heavy = r.chance(o.devheavy);
			if (!app && small && fr.chance(0.35)) {
				// a notification that comes while the output buffer is full
				if (fr.chance(0.3)) g.op(a, "ackmode", {0});
				g.op(a, "wait", {200});
				g.op(a, "fill", {4 * (long)fr.below(4)});
				if (vt && fr.chance(0.7)) g.op(2, "sleep", {(long)fr.below(2500)}), g.op(2, "vt", {(long)fr.range(1, 4)});
				g.op(a, "pause", {(long)fr.below(2500)});
				if (fr.chance(0.8)) g.op(a, "unstall"), g.op(a, "wait", {(long)fr.below(800)});
			}
			if (heavy && many && r.chance(0.5)) {
				long base = (long)r.below(5), cnt = r.range(120, 134);
				for (long d = 0; d < cnt; d++) {
					if (app) g.op(a, "opendev", {base + d});
					else {
						g.op(a, "req", {C_OPEN_DEVICE, base + d, 0});
						if (d % 8 == 7) g.op(a, "recv");
					}
				}
				if (!app) g.op(a, "wait", {300});
				for (int d = 0; d < 6; d++) {
					long which = (long)r.below(8);
					if (app) g.op(a, which < 4 ? "closedev" : "opendev", {(long)r.below(140)});
					else g.op(a, "req", {which < 4 ? C_CLOSE_DEVICE : C_OPEN_DEVICE, which < 4 ? -(long)r.range(1, 130) : (long)r.below(145), 0});
				}
			}
			if (!app && r.chance(o.cycle)) {
				static const long D[] = {0, 1, 140, 141, 142, 2};
				int nd = r.range(1, 5);
				g.op(a, "ackmode", {0});
				for (int d = 0; d < nd; d++) g.op(a, "req", {C_OPEN_DEVICE, D[r.below(nd < 3 ? 3 : 6)], frag, r.chance(0.4) ? 2 : 1});
				g.op(a, "wait", {200});
				if (r.chance(0.7)) g.op(a, "req", {C_SWITCH_SESSION, vt ? (long)r.range(1, 4) : (long)r.range(1, n), frag});
				g.op(a, "wait", {(long)r.below(1500)});
				for (int ph = 0; ph < 3; ph++) {
					for (int d = (int)r.below(4); d > 0; d--) {
						if (r.chance(0.75)) g.op(a, "req", {C_CLOSE_DEVICE, -(long)r.range(1, nd + 1), frag});
						else g.op(a, "req", {C_OPEN_DEVICE, D[r.below(6)], frag});
					}
					if (ph == 0) g.op(a, "ack");
					else if (ph == 1) {
						if (vt) g.op(2, "sleep", {(long)r.below(500)}), g.op(2, "vt", {myvt});
						g.op(a, "wait", {(long)r.below(1500)});
					}
				}
			}
			for (int k = 0; k < m; k++) {
				u32 w = r.below(100);
				if (heavy && w > 45) w = r.below(46);
				long d = heavy ? (r.chance(0.3) ? 140 + (long)r.below(3) : (long)r.below(4)) : g.dev();
				if (app) {
					if (w < 22) g.op(a, "opendev", {d});
					else if (w < 32) g.op(a, "closedev", {(long)r.below(6), (long)r.below(2)});
					else if (w < 35) g.op(a, "closebad", {(long)r.range(-3, 200)});
					else if (w < 48) g.op(a, "switch", {vt ? (long)r.range(-1, 5) : (long)r.range(-1, n + 1)});
					else if (w < 55) g.op(a, "dispatch", {(long)r.below(2)});
					else if (w < 75) g.op(a, "poll", {(long)r.below(800)});
					else if (w < 80) g.op(a, "ack");
					else if (w < 82) g.op(a, "badack");
					else if (w < 95) g.op(a, "pause", {(long)r.below(1500)});
					else if (w < 97) g.op(a, "close");
					else g.op(a, "dispatch", {0});
				} else {
					long rep = r.chance(0.12) ? r.range(2, 12) : 1;
					if (w < 22) g.op(a, "req", {C_OPEN_DEVICE, d, frag, rep, (long)r.below(2)});
					else if (w < 33) g.op(a, "req", {C_CLOSE_DEVICE, r.chance(0.9) ? -(long)r.range(1, 6) : (long)r.range(0, 200), frag});
					else if (w < 33 + 12 * o.sw) g.op(a, "req", {C_SWITCH_SESSION, vt ? (r.chance(0.9) ? (long)r.range(1, 4) : (long)r.range(-2, 70)) : (long)r.range(r.chance(0.1) ? -2 : 1, n + 1), frag});
					else if (w < 50) g.op(a, "req", {C_PING, 0, frag, rep});
					else if (w < 72) g.op(a, "wait", {(long)r.below(800)});
					else if (w < 77) g.op(a, "ack");
					else if (w < 79) g.op(a, "badack");
					else if (w < 88) g.op(a, "pause", {(long)r.below(1500)});
					else if (w < 90) g.op(a, "recv", {(long)r.below(20)});
					else if (w < 91) g.op(a, "dropfds");
					else if (w < 92) g.op(a, stall ? "unstall" : "stall"), stall = !stall;
					else if (w < 94) g.op(a, "req", {C_CLOSE_SEAT, 0, frag});
					else if (w < 95) g.op(a, "req", {C_OPEN_SEAT, 0, frag});
					else if (w < 96) g.op(a, "ackmode", {(long)r.below(2)});
					else g.op(a, "recv");
				}
			}
			if (!app && r.chance(o.mal)) malformed(g, a);
			if (!app && r.chance(0.05)) g.op(a, "shut", {(long)r.below(3)});
			if (stall && r.chance(0.5)) g.op(a, "unstall");
			if (r.chance(life == 2 || r.chance(0.3) ? 0.9 : 0.1)) {
				if (!app && r.chance(0.5)) g.op(a, "req", {C_CLOSE_SEAT, 0, frag});
				if (app || r.chance(0.8)) g.op(a, "close");
			}
			if (life == 2 && !app) g.op(a, "close");
			if (life == 2) g.op(a, "pause", {(long)r.below(500)});
		}
		if (r.chance(0.05)) g.op(a, "die");
	}
	if (fr.chance(o.crowd)) {
		int a = 10 + n;
		g.cfa("cls", a, 0);
		g.cfa("end", a, fr.below(4));
		for (int k = fr.range(1, 3); k > 0; k--) {
			if (fr.chance(0.5)) g.op(a, "pause", {(long)fr.below(2000)});
			g.op(a, "crowd", {fr.chance(0.5) ? (long)fr.below(12) : (long)fr.below(140), (long)fr.below(3)});
			if (fr.chance(0.6)) g.op(a, "pause", {(long)fr.below(2000)});
			if (fr.chance(0.5)) g.op(a, "uncrowd", {(long)fr.range(1, 4), (long)fr.below(4)});
		}
	}
	// environment
	int e = r.range(0, vt ? 16 : 5);
	for (int k = 0; k < e; k++) {
		// a seat without terminals has nothing to hand over, whoever signals the daemon
		if (!vt && r.chance(0.12)) g.op(2, "kill", {1, r.chance(0.5) ? SIGUSR1 : SIGUSR2});
		if (r.chance(0.75)) g.op(2, "sleep", {(long)r.below(r.chance(0.2) ? 30 : 2500)});
		if (vt && r.chance(0.75)) {
			g.op(2, "vt", {(long)r.range(1, r.chance(0.9) ? 4 : 12)});
			while (r.chance(0.15)) g.op(2, "vt", {(long)r.range(1, 4)});
		} else if (r.chance(o.kill)) g.op(2, "kill", {10 + (long)r.below(n), SIGKILL});
		else if (r.chance(0.2)) {
			long v = 10 + (long)r.below(n);
			g.op(2, "stop", {v});
			if (r.chance(0.6)) g.op(2, "sleep", {(long)r.below(2000)}), g.op(2, "cont", {v});
		} else if (r.chance(o.fsw)) {
			if (r.chance(0.4)) {
				long d = g.dev();
				g.op(2, "unplug", {d});
				if (r.chance(0.5)) g.op(2, "sleep", {(long)r.below(1000)}), g.op(2, "plug", {d});
			} else {
				static const char *t[] = {"/etc/shadow", "/dev/mem", "/dev/input/event1", "../mem", "/dev/dri/card1"};
				g.op(2, "swap", {r.chance(0.5) ? (long)r.below(4) : 140 + (long)r.below(2), (long)r.below(400)}, t[r.below(5)]);
			}
		}
	}
	if (r.chance(o.term)) g.op(2, "sleep", {(long)r.below(4000)}), g.op(2, "kill", {1, r.chance(0.5) ? SIGTERM : SIGINT});
	g.cf("tour", vt ? r.below(3) : 0);
	g.cf("final", r.below(3)); // 0 clients leave, then SIGTERM; 1 SIGTERM with clients; 2 clients leave, SIGINT
}

// A client that pings and reads now and then, so that the daemon's output buffer wraps around while it is not read.
void lag_plan(u64 seed, Plan &p) {
	p = Plan();
	G_ g(mix64(seed + 77), p);
	Rng &r = g.r;
	p.profile = "seat";
	g.cf("vt", 0);
	g.cf("sockcap", r.range(16, 100));
	g.cfa("cls", 10, 0);
	g.op(10, "connect");
	for (int i = 0; i < 14; i++) {
		g.op(10, "stall");
		for (int k = r.range(4, 22); k > 0; k--) g.op(10, "req", {C_PING, 0, 0});
		g.op(10, "pause", {(long)r.range(1, 30)});
		g.op(10, "unstall");
		if (r.chance(0.7)) g.op(10, "wait", {(long)r.range(1, 10)});
	}
	g.cf("final", 0);
}
// ------------------------------------------------------------------ applications on libseat
struct LibOpt {
	double fake = 0.55;    // scripted daemon
	double bad = 0.25;     // fake: invalid messages, partial messages
	double die = 0.2;      // the daemon goes away
	double hard = 0.3;     // failing calls in the application
	double errs = 0.1;
	int be = B_SEATD_;
	enum { B_SEATD_ = 0, B_BUILTIN_, B_LOGIND_, B_NOOP_, B_AUTO_ };
};
static void app_ops(G_ &g, int a, int n, bool vt, int ncli, bool reopen = true) {
	Rng &r = g.r;
	for (int k = 0; k < n; k++) {
		u32 w = r.below(100);
		if (w < 22) {
			if (r.chance(0.06)) {
				// lengths around the limits
				static const int L[] = {200, 245, 248, 249, 250, 251, 255, 256, 257, 300, 1000};
				g.op(a, "opendev", {0}, "/dev/" + std::string((size_t)L[r.below(11)] - 5, 'x'));
			} else g.op(a, "opendev", {g.dev()});
		} else if (w < 32) g.op(a, "closedev", {(long)r.below(6), (long)r.below(2)});
		else if (w < 35) g.op(a, "closebad", {(long)r.range(-3, 200)});
		else if (w < 45) g.op(a, "switch", {vt ? (long)r.range(-1, 5) : (long)r.range(-1, ncli + 1)});
		else if (w < 57) g.op(a, "dispatch", {r.chance(0.7) ? 0 : (long)r.below(40)});
		else if (w < 59) g.op(a, "dispatch", {-1});
		else if (w < 76) g.op(a, "poll", {(long)r.below(800)});
		else if (w < 81) g.op(a, "ack");
		else if (w < 83) g.op(a, "badack");
		else if (w < 91) g.op(a, "pause", {(long)r.below(1000)});
		else if (w < 93) g.op(a, "ackmode", {(long)r.below(2)});
		else if (w < 94) g.op(a, "dropfd", {(long)r.below(4)});
		else if (w < 97 && reopen) {
			g.op(a, "close");
			if (r.chance(0.8)) g.op(a, "open", {1});
		} else g.op(a, "dispatch", {0});
	}
}
static void lib_faults(G_ &g, double hard, double errs) {
	Rng &r = g.r;
	if (r.chance(0.6)) g.soft();
	if (r.chance(hard)) {
		double l = r.chance(0.5) ? 1 : 0.3;
		g.p.rate[K_ALLOC] = g.some(0.1 * l);
		g.p.rate[K_SOCKET] = g.some(0.15 * l);
		g.p.rate[K_CONNECT] = g.some(0.15 * l);
		g.p.rate[K_FCNTL] = g.some(0.1 * l);
		g.p.rate[K_DUP] = g.some(0.1 * l);
		g.p.rate[K_FORK] = g.some(0.3 * l);
		if (r.chance(0.3)) g.cf("pollapp", 1), g.p.rate[K_POLL_ERR] = r.chance(0.5) ? 0.05 : 0.2;
	}
	if (r.chance(errs)) g.p.rate[K_SEND_ERR] = g.some(0.08), g.p.rate[K_RECV_ERR] = g.some(0.08);
	if (Rng(g.p.seed ^ 0xea6).chance(errs)) g.cf("lagain", 1), g.p.rate[K_EAGAIN_SEND] = 0.1; // requests find the socket full
}
static void fake_plan(u64 seed, Plan &p, const LibOpt &o) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	g.cf("fake", 1);
	g.cf("vt", 0);
	g.sched();
	lib_faults(g, o.hard, o.errs);
	int a = 10;
	g.cfa("cls", a, 1);
	g.cfa("ack", a, r.chance(0.35));
	g.cfa("end", a, r.below(4));
	if (r.chance(0.3)) g.cfa("reopen", a, 1);
	if (r.chance(0.1)) g.cfa("fdl", a, r.range(3, 20));
	if (r.chance(0.05)) g.cf("noackclose", 1);
	g.op(a, "open", {1});
	if (r.chance(0.5)) g.op(a, "poll", {(long)r.below(400)});
	int n = r.range(1, 16);
	app_ops(g, a, n, false, 3, r.chance(0.3));
	if (r.chance(0.06)) g.op(a, "die");
	// the daemon: how it answers, and what it says in between
	int style = (int)r.below(4); // fragmentation
	auto frag = [&]() { return style == 0 ? 0l : style == 1 ? 1l : r.chance(0.5) ? 0l : (long)r.range(1, 9); };
	auto gap = [&]() { return r.chance(0.5) ? 0l : (long)r.below(20); };
	double evs = r.chance(0.3) ? 0.7 : r.chance(0.5) ? 0.3 : 0.05;
	auto cnt = [&]() { return r.chance(evs) ? (long)r.range(1, r.chance(0.1) ? 40 : 3) : 0l; };
	int m = n + r.range(0, 8);
	int badat = r.chance(o.bad) ? (int)r.below((u32)m + 1) : -1;
	int dieat = r.chance(o.die) ? (int)r.below((u32)m + 1) : -1;
	static const int ERR[] = {EIO, EPERM, EACCES, ENOENT, EMFILE, EINVAL, EAGAIN, EINTR, ENOSYS, EBADF, ENODEV, 1, 133, 4095, EALREADY, ETIMEDOUT};
	for (int i = 0; i <= m; i++) {
		if (i == badat) {
			switch (r.below(8)) {
			case 0: g.op(3, "partial", {(long)r.range(1, 11)}); break;
			case 1: g.op(3, "nofd"); break;
			default: g.op(3, "garbage", {r.chance(0.3) ? 8l : (long)r.below(14), r.chance(0.75)});
			}
		}
		if (i == dieat) {
			if (r.chance(0.3)) g.op(3, "event", {(long)r.range(1, 3), frag(), gap()});
			g.op(3, "close", {(long)r.below(2)});
		}
		if (r.chance(evs * 0.6)) {
			if (r.chance(0.5)) g.op(3, "sleep", {(long)r.below(500)});
			g.op(3, "event", {cnt() + 1, frag(), gap()});
		}
		if (r.chance(0.2)) g.op(3, "sleep", {(long)r.below(600)});
		long mode = i == 0 ? (long)r.below(3) : r.chance(0.3) ? 1 : r.chance(0.2) ? 2 : 0;
		g.op(3, "reply", {mode, ERR[r.below(16)], cnt(), cnt(), frag(), gap()});
	}
	g.cf("final", r.below(3));
}
static void lib_plan(u64 seed, Plan &p, const LibOpt &o) {
	Rng pick(seed ^ 0x51ab);
	if (pick.chance(o.fake)) {
		fake_plan(seed, p, o);
		return;
	}
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	int vt = (int)r.below(2);
	g.cf("vt", vt);
	g.sched();
	lib_faults(g, o.hard, o.errs);
	if (r.chance(0.3)) g.hard(0.5);
	if (r.chance(0.6)) g.cf("dfault", 0);
	int n = r.range(1, 4);
	for (int i = 0; i < n; i++) {
		int a = 10 + i;
		bool app = i == 0 || r.chance(0.7);
		g.cfa("cls", a, app);
		g.cfa("ack", a, r.chance(0.35));
		g.cfa("end", a, r.below(4));
		if (app && r.chance(0.3)) g.cfa("reopen", a, 1);
		if (app && r.chance(0.05)) g.cfa("fdl", a, r.range(3, 20));
		if (r.chance(0.5)) g.op(a, "pause", {(long)r.below(2500)});
		if (vt && r.chance(0.7)) g.op(a, "waitvt", {1 + (long)r.below(3)});
		if (app) {
			g.op(a, "open", {1});
			if (r.chance(0.7)) g.op(a, "poll", {(long)r.below(600)});
			app_ops(g, a, r.range(1, 14), vt, n);
			if (r.chance(0.04)) g.op(a, "die");
		} else {
			g.op(a, "connect");
			g.op(a, "req", {C_OPEN_SEAT, 0, 0});
			for (int k = 0, m = r.range(1, 8); k < m; k++) {
				switch (r.below(4)) {
				case 0: g.op(a, "req", {C_OPEN_DEVICE, g.dev(), 0}); break;
				case 1: g.op(a, "req", {C_SWITCH_SESSION, (long)r.range(1, vt ? 4 : n + 1), 0}); break;
				case 2: g.op(a, "wait", {(long)r.below(900)}); break;
				case 3: g.op(a, "pause", {(long)r.below(900)}); break;
				}
			}
			if (r.chance(0.4)) g.op(a, "close");
		}
	}
	int e = r.range(0, vt ? 12 : 3);
	for (int k = 0; k < e; k++) {
		if (r.chance(0.75)) g.op(2, "sleep", {(long)r.below(r.chance(0.2) ? 30 : 2500)});
		if (vt) g.op(2, "vt", {(long)r.range(1, 4)});
	}
	if (r.chance(0.1)) g.op(2, "kill", {10 + (long)r.below((u32)n), SIGKILL});
	if (r.chance(o.die)) {
		g.op(2, "sleep", {(long)r.below(5000)});
		if (r.chance(0.2)) g.op(2, "stop", {1}), g.op(2, "sleep", {(long)r.below(1500)}), g.op(2, "cont", {1});
		else {
			static const int S[] = {SIGKILL, SIGTERM, SIGINT};
			int s = S[r.below(3)];
			if (s == SIGKILL) g.cf("daemonkilled", 1);
			g.op(2, "kill", {1, s});
		}
	}
	g.cf("final", r.below(3));
}
// ------------------------------------------------------------------ built-in daemon
static void builtin_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	int vt = (int)r.below(2);
	g.cf("vt", vt);
	g.cf("daemon", 0);
	g.sched();
	lib_faults(g, 0.3, 0.05);
	if (r.chance(0.3)) g.hard(r.chance(0.5) ? 1 : 0.3);
	Rng mr(seed ^ 0x3a5c);
	int n = vt || r.chance(0.8) ? 1 : 2; // every application has a seat of its own
	for (int i = 0; i < n; i++) {
		int a = 10 + i;
		g.cfa("cls", a, 1);
		g.cfa("be", a, LibOpt::B_BUILTIN_);
		g.cfa("ack", a, r.chance(0.35));
		g.cfa("end", a, r.below(4));
		if (r.chance(0.3)) g.cfa("reopen", a, 1);
		if (mr.chance(0.2)) g.cfa("mask", a, mr.below(16));
		if (r.chance(0.06)) g.cfa("fdl", a, r.range(3, 20));
		if (r.chance(0.1)) g.cfa("uid", a, 1000);
		if (r.chance(0.5)) g.op(a, "pause", {(long)r.below(500)});
		g.op(a, "open", {0});
		if (r.chance(0.7)) g.op(a, "poll", {(long)r.below(600)});
		app_ops(g, a, r.range(1, 14), vt, n);
		if (r.chance(0.15)) g.op(a, "die");
	}
	int e = r.range(0, vt ? 10 : 3);
	for (int k = 0; k < e; k++) {
		if (r.chance(0.75)) g.op(2, "sleep", {(long)r.below(r.chance(0.3) ? 60 : 2500)});
		u32 w = r.below(100);
		if (vt && w < 60) g.op(2, "vt", {(long)r.range(1, 4)});
		else if (w < 72) g.op(2, "kill", {10 + (long)r.below((u32)n), SIGKILL});
		else if (w < 86) g.op(2, "kill", {1010 + (long)r.below((u32)n), r.chance(0.5) ? SIGKILL : r.chance(0.5) ? SIGTERM : SIGINT});
		else if (w < 92) g.op(2, "stop", {1010}), g.op(2, "sleep", {(long)r.below(1500)}), g.op(2, "cont", {1010});
		else if (w < 96) g.op(2, "stop", {10}), g.op(2, "sleep", {(long)r.below(1500)}), g.op(2, "cont", {10});
		else g.op(2, "unplug", {g.dev()});
	}
	g.cf("final", 0);
}
// ------------------------------------------------------------------ logind
static void logind_plan(u64 seed, Plan &p, double hard) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	g.cf("daemon", 0);
	g.cf("vt", 0);
	g.cf("logind", 1);
	g.sched();
	if (r.chance(0.4)) g.soft();
	if (r.chance(hard)) p.rate[K_BUS] = r.chance(0.5) ? 0.02 : 0.12;
	if (r.chance(hard)) p.rate[K_ALLOC] = g.some(0.1), p.rate[K_DUP] = g.some(0.15), p.rate[K_FCNTL] = g.some(0.1);
	if (r.chance(0.2)) g.cf("lstate", 1 + (long)r.below(31));
	if (r.chance(0.2)) g.cf("xdgid", 1 + (long)r.below(5) / 4);
	if (r.chance(0.3)) g.cf("xdgtype", 1);
	g.cf("lactive", r.chance(0.6));
	int a = 10;
	g.cfa("cls", a, 1);
	g.cfa("be", a, LibOpt::B_LOGIND_);
	g.cfa("ack", a, r.chance(0.35));
	g.cfa("end", a, r.below(4));
	if (r.chance(0.2)) g.cfa("reopen", a, 1);
	if (r.chance(0.06)) g.cfa("fdl", a, r.range(3, 20));
	if (r.chance(0.3)) g.op(a, "pause", {(long)r.below(300)});
	g.op(a, "open", {0});
	if (r.chance(0.8)) g.op(a, "dispatch", {0});
	if (r.chance(0.7)) g.op(a, "poll", {(long)r.below(600)});
	app_ops(g, a, r.range(1, 16), false, 3);
	if (r.chance(0.04)) g.op(a, "die");
	int e = r.range(0, 14);
	for (int k = 0; k < e; k++) {
		if (r.chance(0.8)) g.op(2, "sleep", {(long)r.below(r.chance(0.3) ? 50 : 1200)});
		u32 w = r.below(100);
		if (w < 65) g.op(2, "lactive", {(long)r.below(2), r.chance(0.6) ? 0l : (long)r.below(3)});
		else if (w < 72) g.op(2, "ltimeout");
		else if (w < 80) g.op(2, "lgone", {(long)r.below(4)});
		else if (w < 92) g.op(2, "lnoise", {(long)r.below(16)});
		else if (w < 93) g.op(2, "ldie");
		else if (w < 97) g.op(2, "unplug", {g.dev()});
		else g.op(2, "stop", {10}), g.op(2, "sleep", {(long)r.below(800)}), g.op(2, "cont", {10});
	}
	g.cf("final", 0);
}

// ------------------------------------------------------------------ choice of the backend
static void select_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "seat";
	g.cf("vt", 0);
	g.cf("vtenv", 1);
	g.cf("logind", 1);
	g.cf("dfault", 0);
	g.sched();
	if (r.chance(0.4)) lib_faults(g, 0.8, 0.1);
	if (r.chance(0.3)) p.rate[K_BUS] = g.some(0.3, 1);
	if (r.chance(0.75)) g.cf("lstate", 1 + (long)r.below(31));
	else if (r.chance(0.3)) g.cf("lstate", 1);
	if (r.chance(0.2)) g.cf("xdgid", 1 + (long)r.below(5) / 4);
	g.cf("lactive", r.chance(0.6));
	int world = (int)r.below(5);
	bool fake = false;
	if (world < 2) { // the daemon, where it belongs
		if (r.chance(0.5)) g.cf("xsock", r.chance(0.5) ? 1 : r.range(2, 5));
	} else if (world < 4) { // one that is scripted, elsewhere
		fake = true;
		g.cf("fake", 1);
		long k = r.chance(0.5) ? 3 : r.range(3, 5);
		g.cf("gsock", k);
		g.cf("xsock", r.chance(0.7) ? k : r.chance(0.5) ? 0 : r.range(1, 5));
		if (r.chance(0.3)) g.cf("sockfile", 1 + (long)r.below(2));
	} else {
		g.cf("daemon", 0);
		if (r.chance(0.4)) g.cf("sockfile", 1 + (long)r.below(2));
		if (r.chance(0.3)) g.cf("xsock", r.range(1, 5));
	}
	int a = 10;
	g.cfa("cls", a, 1);
	int be = r.chance(0.6) ? 4 : r.chance(0.1) ? 5 : (int)r.below(4);
	g.cfa("be", a, be);
	g.cfa("badbe", a, r.below(5));
	g.cfa("ack", a, r.chance(0.35));
	g.cfa("end", a, r.below(4));
	if (r.chance(0.06)) g.cfa("fdl", a, r.range(3, 20));
	if (r.chance(0.1)) g.cfa("uid", a, 1000);
	if (r.chance(0.15)) g.op(a, "opennull", {(long)r.below(4)});
	g.op(a, "open", {world < 4 && r.chance(0.95)});
	if (r.chance(0.8)) g.op(a, "dispatch", {0});
	app_ops(g, a, r.range(0, 10), false, 3);
	if (r.chance(0.7)) {
		g.op(a, "close");
		g.op(a, "open", {0});
		if (be == 3) g.op(a, "dispatch", {(long)r.below(30)});
	}
	if (fake) {
		bool refuse = r.chance(0.3);
		if (refuse) g.cf("fakeopen", 1);
		for (int i = 0; i < 14; i++) {
			if (refuse && r.chance(0.4)) g.op(3, "close", {(long)r.below(2)});
			g.op(3, "reply", {refuse ? 3 : i == 0 ? (long)r.below(3) : 0, r.chance(0.5) ? EBUSY : EIO, 0, 0, 0, 0});
		}
	}
	g.cf("final", 0);
}

// ------------------------------------------------------------------ connection layer
static void conn_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "conn";
	p.rate[K_PREEMPT] = PRE[r.below(5)];
	p.rate[K_SHORT_READ] = g.some(0.8, 0.6);
	p.rate[K_SHORT_WRITE] = g.some(0.8, 0.6);
	p.rate[K_EINTR] = g.some(0.3, 0.5);
	if (r.chance(0.15)) p.rate[K_SEND_ERR] = g.some(0.1), p.rate[K_RECV_ERR] = g.some(0.1);
	if (r.chance(0.6)) g.cf("sockcap", r.chance(0.5) ? r.range(1, 64) : r.range(64, 600));
	if (r.chance(0.5)) g.cf("off", r.chance(0.5) ? (long)(0u - (u32)r.below(700)) & 0xffffffffl : (long)r.below(256) * 4 + (long)r.below(4));
	g.cf("leave", r.below(2));
	bool one = r.chance(0.5); // one writes, the other reads
	int style = (int)r.below(3);
	double fds = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.1 : 0.4;
	for (int i = 0; i < 2; i++) {
		int a = 10 + i, n = r.range(2, 60);
		for (int k = 0; k < n; k++) {
			bool w = one ? i == 0 : r.chance(0.5);
			if (r.chance(0.1)) w = !w;
			if (w) {
				if (r.chance(fds)) g.op(a, "putfd", {r.chance(0.15) ? (long)r.range(10, 70) : r.chance(0.3) ? (long)r.range(1, 9) : 1l});
				else if (r.chance(0.6)) {
					static const long L[] = {4, 8, 12, 0, 1, 100, 128, 200, 250, 255, 256, 257, 300, 1000};
					g.op(a, "put", {style == 0 ? (long)r.range(1, 20) : style == 1 ? L[r.below(14)] : (long)r.range(0, 256)});
				} else g.op(a, "flush");
			} else {
				u32 x = r.below(100);
				if (x < 30) g.op(a, "read");
				else if (x < 50) g.op(a, "get", {r.chance(0.5) ? (long)r.range(0, 8) : (long)r.range(0, 256)});
				else if (x < 65) g.op(a, "getall");
				else if (x < 75) g.op(a, "getfd", {r.chance(0.7) ? 1l : (long)r.range(1, 70)});
				else if (x < 85) g.op(a, "restore", {r.chance(0.5) ? (long)r.range(1, 8) : (long)r.range(1, 256)});
				else if (x < 89) g.op(a, "pending");
				else if (x < 97) g.op(a, "wait", {(long)r.below(200)});
				else g.op(a, "drop");
			}
			if (r.chance(0.08)) g.op(a, "sleep", {(long)r.below(300)});
			if (r.chance(0.01)) g.op(a, "closefds");
		}
		if (r.chance(0.1)) g.op(a, "close");
		else if (r.chance(0.04)) g.op(a, "shut", {(long)r.below(3)});
	}
}
// ------------------------------------------------------------------ event loop
static void poller_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "poller";
	p.rate[K_PREEMPT] = PRE[r.below(5)];
	p.rate[K_SIGDELAY] = r.chance(0.7) ? 0.9 : 0;
	p.rate[K_EINTR] = g.some(0.4, 0.5);
	p.rate[K_SPURIOUS_POLL] = g.some(0.3, 0.3);
	if (r.chance(0.2)) p.rate[K_ALLOC] = g.some(0.2);
	if (r.chance(0.1)) p.rate[K_POLL_ERR] = g.some(0.2);
	if (r.chance(0.05)) p.rate[K_SOCKET] = 0.2, p.rate[K_FCNTL] = 0.2;
	int ch = r.range(1, 6), lives = r.chance(0.2) ? 2 : 1;
	g.cf("chans", ch);
	g.cf("kinds", r.below(64));
	g.cf("lives", lives);
	if (r.chance(0.2)) g.cf("pipecap", r.range(1, 4));
	Rng mr(seed ^ 0x3a5c);
	if (mr.chance(0.15)) g.cf("pmask", mr.below(64));
	static const long M[] = {EVENT_R, EVENT_R, EVENT_R, EVENT_R | EVENT_W, EVENT_W, 0};
	auto act = [&](int a) {
		u32 w = r.below(100);
		if (w < 25) g.op(a, "add", {(long)r.below((u32)ch), M[r.below(6)]});
		else if (w < 40) g.op(a, "destroy", {(long)r.below(8)});
		else if (w < 58) g.op(a, "update", {(long)r.below(8), M[r.below(6)]});
		else if (w < 68) g.op(a, "addsig", {(long)r.below(r.chance(0.5) ? 2 : 6)});
		else if (w < 80) g.op(a, "raise", {(long)r.below(r.chance(0.5) ? 2 : 6)});
		else if (w < 90) g.op(a, "replace", {(long)r.below(8), M[r.below(4)]});
		else g.op(a, "drain", {(long)r.below((u32)ch)});
	};
	for (int l = 0; l < lives; l++) {
		if (l) g.op(10, "life");
		for (int i = 0, n = r.range(1, ch + 1); i < n; i++) g.op(10, "add", {(long)r.below((u32)ch), M[r.below(5)]});
		for (int i = 0, n = r.range(0, 4); i < n; i++) g.op(10, "addsig", {(long)r.below(r.chance(0.5) ? 2 : 6)});
		for (int i = 0, n = r.range(1, 20); i < n; i++) {
			u32 w = r.below(100);
			if (w < 60 && l == lives - 1) g.op(10, "poll", {(long)r.range(1, 4)});
			else if (w < 60) { // something to come back for
				g.op(10, "add", {(long)r.below((u32)ch), EVENT_R | EVENT_W});
				g.op(10, "addsig", {0});
				g.op(10, "raise", {0});
				g.op(10, "poll");
			} else if (w < 70) g.op(10, "pause", {(long)r.below(50)});
			else act(10);
		}
	}
	for (int i = 0, n = r.range(0, 40); i < n; i++) {
		u32 w = r.below(100);
		if (w < 20) g.op(12, "none");
		else if (w < 35) g.op(12, "more", {(long)r.below(2)});
		else act(12);
	}
	for (int i = 0, n = r.range(0, 40); i < n; i++) {
		u32 w = r.below(100);
		if (w < 60) g.op(11, "write", {(long)r.below((u32)ch + 3)});
		else if (w < 67) g.op(11, "close", {(long)r.below((u32)ch + 3)});
		else g.op(11, "sleep", {(long)r.below(100)});
	}
	for (int i = 0, n = r.range(0, 30); i < n; i++) {
		if (r.chance(0.6)) g.op(13, "sig", {(long)r.below(r.chance(0.5) ? 2 : 6)});
		else g.op(13, "sleep", {(long)r.below(r.chance(0.5) ? 10 : 200)});
	}
}
// ------------------------------------------------------------------ the socket path of the daemon
static void sock_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "sock";
	Rng ur(seed ^ 0x0a5c);
	if (ur.chance(0.3)) g.cf("umask", 1 + ur.below(3));
	if (ur.chance(0.1)) g.cf("dmask", ur.below(16));
	g.cf("vt", r.below(2));
	g.sched();
	if (r.chance(0.4)) g.soft();
	if (r.chance(0.6)) {
		double l = r.chance(0.3) ? 1 : 0.4;
		for (Kind k : {K_SOCKET, K_BIND, K_LISTEN, K_CHMOD, K_CHOWN, K_UNLINK, K_REALPATH, K_WRITE_ERR, K_FCNTL, K_POLL_ERR, K_ACCEPT})
			p.rate[k] = g.some((k == K_POLL_ERR ? 0.1 : 0.4) * l, 0.25);
		p.rate[K_ALLOC] = g.some(0.2 * l, 0.3);
	}
	if (r.chance(0.5)) g.op(4, "node", {(long)r.below(5), (long)r.below(2)});
	for (int i = 0, n = r.range(1, 5); i < n; i++) {
		long fl = 0;
		if (r.chance(0.7)) fl |= 1;
		if (r.chance(0.3)) fl |= 2;
		else {
			if (r.chance(0.4)) fl |= r.chance(0.7) ? 4 : 64;
			if (r.chance(0.4)) fl |= 8;
		}
		if (r.chance(0.12)) fl |= 16l << r.below(8);
		if (ur.chance(0.3)) fl |= 4096 | 8192 * (long)ur.below(4);
		if (r.chance(0.03)) fl |= 2 | (r.chance(0.5) ? 4 : 8);
		g.op(4, "start", {fl, (long)r.below(2), (long)Rng(seed + p.ops.size()).below(3)});
		auto pause = [&]() {
			if (r.chance(0.6)) g.op(4, "sleep", {(long)r.below(r.chance(0.6) ? 40 : 400)});
		};
		pause();
		if (r.chance(0.08)) g.op(4, "dropreader");
		if (r.chance(0.5)) g.op(4, "waitready", {(long)r.below(400)});
		for (int k = (int)r.below(4); k > 0; k--) {
			if (r.chance(0.5)) g.op(4, "connect", {(long)r.below(4), (long)r.below(3)});
			else if (r.chance(0.5)) g.op(4, "start", {2 | (long)r.below(2), 0}); // a second one has to refuse
			pause();
		}
		static const int S[] = {SIGTERM, SIGINT, SIGKILL};
		if (r.chance(0.85)) {
			int s = S[r.below(3)];
			g.op(4, "kill", {s});
			if (r.chance(0.1)) g.op(4, "kill", {S[r.below(2)]});
			if (r.chance(0.1)) pause(), g.op(4, "kill", {SIGKILL});
			if (s != SIGKILL && r.chance(0.15)) g.op(4, "connect", {0, 0});
		}
		g.op(4, "waitexit");
		if (r.chance(0.3)) g.op(4, "node", {(long)r.below(6), (long)r.below(2)});
		pause();
	}
	g.cf("healflags", 1 | (r.chance(0.3) ? 4 : 0) | (r.chance(0.3) ? 8 : 0));
	g.cf("healsig", r.below(2));
}
// ------------------------------------------------------------------ seatd-launch
static void launch_plan(u64 seed, Plan &p) {
	G_ g(seed, p);
	Rng &r = g.r;
	p.profile = "launch";
	g.sched();
	if (r.chance(0.4)) g.soft();
	if (r.chance(0.3)) p.rate[K_WAITPID] = g.some(0.4);
	if (r.chance(0.4)) p.rate[K_EINTR] = g.some(0.4);
	if (r.chance(0.6)) {
		double l = r.chance(0.3) ? 1 : 0.4;
		for (Kind k : {K_FORK, K_EXEC, K_SETID, K_CHOWN, K_CHMOD, K_SOCKET, K_BIND, K_LISTEN, K_UNLINK, K_FCNTL, K_POLL_ERR, K_REALPATH, K_RECV_ERR})
			p.rate[k] = g.some((k == K_POLL_ERR ? 0.15 : 0.4) * l, 0.2);
		p.rate[K_ALLOC] = g.some(0.2 * l, 0.3);
	}
	static const int CMD[] = {0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8};
	int c = CMD[r.below(15)];
	if (c >= 6 && r.chance(0.7)) c = (int)r.below(5);
	g.cf("cmd", c);
	g.cf("code", r.chance(0.3) ? 0 : r.below(256));
	g.cf("cmdms", r.below(r.chance(0.5) ? 20 : 3000));
	g.cf("uid", r.chance(0.8) ? 1000 : 0);
	g.cf("setgid", r.below(2));
	g.cf("lvl", r.below(4));
	g.cf("dashes", r.below(2));
	g.cf("abs", r.below(2));
	g.cf("nargs", r.chance(0.5) ? 0 : r.below(4));
	g.cf("argoff", r.below(8));
	g.cf("presock", r.below(2));
	g.cf("chldign", r.chance(0.1));
	g.cf("sockfile", r.chance(0.1) ? 1 + r.below(2) : 0);
	if (r.chance(0.1)) g.cf("fdlimit", 3 + r.below(6));
	for (int i = 0, n = r.chance(0.3) ? 0 : r.range(1, 6); i < n; i++) {
		static const int S[] = {SIGTERM, SIGKILL, SIGINT};
		double x = r.below(1000) / 1000.0;
		if (x < 0.35) g.op(4, "sleep", {(long)r.below(r.chance(0.5) ? 60 : 3000)});
		else if (x < 0.45) g.op(4, "waitready", {(long)r.below(3000)});
		else if (x < 0.6) g.op(4, "waitcmd", {(long)r.below(3000)});
		else if (x < 0.7) g.op(4, "killseatd", {S[r.below(3)]});
		else if (x < 0.78) g.op(4, "killcmd", {r.chance(0.5) ? S[r.below(3)] : (long)(1 + r.below(15))});
		else if (x < 0.81) g.op(4, "killlaunch", {S[r.below(3)]});
		else if (x < 0.92) g.op(4, "stop", {(long)r.below(3), (long)r.below(r.chance(0.5) ? 50 : 4000)});
		else g.op(4, "spy");
	}
}
struct PropDef {
	const char *id;
	std::function<void(u64, Plan &)> gen;
};
static SeatOpt so(std::function<void(SeatOpt &)> f) {
	SeatOpt o;
	f(o);
	return o;
}
static bool pick(u64 seed, double p) { return Rng(seed ^ 0x77).chance(p); }

// Applications that log, and change their mind about it while they run.
static void log_settings(u64 seed, Plan &p, double app) {
	Rng r(seed ^ 0x106);
	if (p.profile != "seat") return;
	auto lvl = [&]() { return (long)r.below(4); };
	std::vector<Op> ops;
	std::set<int> seen;
	for (auto &o : p.ops) {
		bool is_app = o.actor >= 10 && o.actor < 100 && p.get(("cls" + std::to_string(o.actor)).c_str()) == 1;
		if (is_app && seen.insert(o.actor).second && r.chance(app)) {
			if (r.chance(0.8)) p.cfg["llev" + std::to_string(o.actor)] = lvl();
			if (r.chance(0.6)) p.cfg["lhnd" + std::to_string(o.actor)] = (long)r.below(3);
		}
		ops.push_back(o);
		if (is_app && r.chance(app * 0.2)) {
			Op l;
			l.actor = o.actor;
			l.verb = "log";
			l.a = {r.chance(0.7) ? lvl() : -1, r.chance(0.6) ? (long)r.below(3) : -1};
			ops.push_back(l);
		}
	}
	p.ops = ops;
	if (r.chance(app)) p.cfg["dlvl"] = (long)r.below(4);
}
static bool plan_of(const std::string &prop, u64 seed, Plan &p);
bool make_plan(const std::string &prop, u64 seed, Plan &p) {
	if (!plan_of(prop, seed, p)) return false;
	bool own = prop == "C30";
	if (own || Rng(seed ^ 0x10f).chance(0.3)) log_settings(seed, p, own ? 0.8 : 0.5);
	if (own) {
		p.cfg["logcmp"] = 1;
		if (!p.cfg.count("dlvl")) p.cfg["dlvl"] = 3;
		p.rate[K_SIGDELAY] = p.rate[K_ALLOC] = 0; // their places depend on what logging itself executes
	}
	return true;
}
static bool plan_of(const std::string &prop, u64 seed, Plan &p) {
	p = Plan();
	p.seed = seed;
	auto seat = [&](std::function<void(SeatOpt &)> f) {
		seat_plan(seed, p, so(f));
		return true;
	};
	(void)pick;
	if (prop == "C01") return seat([](SeatOpt &o) { o.backlog = 0.2; });
	if (prop == "C02") return seat([](SeatOpt &o) { o.devheavy = 0.4, o.kill = 0.4, o.fsw = 0.05, o.cycle = 0.3; });
	if (prop == "C03") return seat([](SeatOpt &o) { o.devheavy = 0.4, o.mal = 0.02, o.sw = 1.5, o.cycle = 0.3; });
	if (prop == "C04") {
		bool ok = seat([](SeatOpt &o) { o.fsw = 0.7, o.devheavy = 0.1; });
		Rng r(seed ^ 0x4f5);
		if (r.chance(0.5)) p.rate[K_FSRACE] = 0.4;
		return ok;
	}
	if (prop == "C05") return seat([](SeatOpt &o) { o.devheavy = 0.6, o.many = true, o.maxcli = 3, o.fsw = 0.05, o.cycle = 0.5; });
	if (prop == "C06") return seat([](SeatOpt &o) { o.vt = 0, o.sw = 2; });
	if (prop == "C07") return seat([](SeatOpt &o) { o.vt = 1, o.backlog = 0.3; });
	if (prop == "C08") return seat([](SeatOpt &o) { o.vt = 1; });
	if (prop == "C09") return seat([](SeatOpt &o) { o.vt = 1, o.kill = 0.5, o.term = 0.25, o.kd = 0.3; });
	if (prop == "C10") return seat([](SeatOpt &o) { o.vt = 1, o.kill = 0.3; });
	if (prop == "C11") return seat([](SeatOpt &o) { o.kill = 0.5; });
	if (prop == "C12") return seat([](SeatOpt &o) { o.mal = 0.5, o.hard = 0.5, o.tty = 0.2, o.errs = 0.2, o.backlog = 0.3, o.crowd = 0.08; });
	if (prop == "C13") return seat([](SeatOpt &o) { o.mal = 0.05, o.backlog = 0.2, o.app = 0.1; });
	if (prop == "C14") return seat([](SeatOpt &o) { o.backlog = 0.9, o.mal = 0.02, o.app = 0.05; });
	auto lib = [&](std::function<void(LibOpt &)> f) {
		LibOpt o;
		f(o);
		lib_plan(seed, p, o);
		return true;
	};
	if (prop == "C15") return conn_plan(seed, p), true;
	if (prop == "C16") return lib([](LibOpt &o) { o.bad = 0.05, o.die = 0.05, o.hard = 0.15, o.errs = 0.02; });
	if (prop == "C17") return lib([](LibOpt &o) { o.bad = 0.05, o.die = 0.05, o.hard = 0.15, o.errs = 0.02; });
	if (prop == "C18") return lib([](LibOpt &o) { o.bad = 0.1, o.die = 0.1; });
	if (prop == "C19") return lib([](LibOpt &o) { o.bad = 0.6, o.die = 0.6; });
	if (prop == "C20") return lib([](LibOpt &o) { o.hard = 0.7, o.errs = 0.2, o.bad = 0.4, o.die = 0.4; });
	if (prop == "C21") return sock_plan(seed, p), true;
	if (prop == "C22") return launch_plan(seed, p), true;
	if (prop == "C23") return builtin_plan(seed, p), true;
	if (prop == "C24") return logind_plan(seed, p, 0.25), true;
	if (prop == "C25") return logind_plan(seed, p, 0.6), true;
	if (prop == "C26") return poller_plan(seed, p), true;
	if (prop == "C27") return select_plan(seed, p), true;
	if (prop == "C30") {
		switch (Rng(seed ^ 0x1069).below(6)) {
		case 0: return seat([](SeatOpt &o) { o.app = 0.7, o.hard = 0.4; });
		case 1: return builtin_plan(seed, p), true;
		case 2: return logind_plan(seed, p, 0.5), true;
		case 3: return select_plan(seed, p), true;
		default: return lib([](LibOpt &o) { o.hard = 0.5, o.errs = 0.2, o.bad = 0.4, o.die = 0.4; });
		}
	}
	if (prop == "C28") return seat([](SeatOpt &o) { o.hard = 0.5, o.mal = 0.3, o.kill = 0.5, o.devheavy = 0.4; });
	return false;
}
