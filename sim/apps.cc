// Harness actors: protocol clients, applications on libseat, the environment, a scripted daemon.
// REPO-HEADERS
#include "apps.h"
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
extern "C" {
#define libseat_open_seat L_libseat_open_seat
#define libseat_disable_seat L_libseat_disable_seat
#define libseat_close_seat L_libseat_close_seat
#define libseat_open_device L_libseat_open_device
#define libseat_close_device L_libseat_close_device
#define libseat_seat_name L_libseat_seat_name
#define libseat_switch_session L_libseat_switch_session
#define libseat_get_fd L_libseat_get_fd
#define libseat_dispatch L_libseat_dispatch
#define libseat_set_log_handler L_libseat_set_log_handler
#define libseat_set_log_level L_libseat_set_log_level
#include "libseat.h"
}
Game *G;

// ------------------------------------------------------------------ world
static const int NEV = 140;
std::string dev_path(long i) {
	if (i < 0) i = -i;
	char b[128];
	if (i < NEV) snprintf(b, sizeof b, "/dev/input/event%ld", i);
	else if (i < 200) {
		static const char *v[] = {"/dev/dri/card0", "/dev/dri/card1", "/dev/dri/renderD128", "/dev/hidraw0", "/dev/hidraw1"};
		snprintf(b, sizeof b, "%s", v[(i - NEV) % 5]);
	} else {
		static const char *v[] = {
			// links to real devices
			"/dev/input/by-path/kbd", "/dev/dri/by-path/card", "/dev/input/../input/event3", "/dev//dri/./card0", "/dev/fb/../dri/card1",
			"/dev/my-event", "/dev/input/event-link",
			// not allowed or not there
			"/dev/mem", "/dev/input/mouse0", "/dev/dri/evil", "/dev/input/event-evil", "/dev/hidraw-evil", "/etc/shadow", "/dev/dri/../mem",
			"/dev/input/event999", "dev/input/event0", "/dev/dri", "/dev/dri/", "/dev/tty1", "/dev/input/event1/", "/dev/input/event0/x",
			"/dev/loop-a", "/dev/input/eventX/../../mem", "/dev/driver", "/dev/input/event/../../../etc/shadow", "/dev/null", "/dev/dri/../dri2/card9",
			"/dev/dri/by-path/../../mem", "/dev/hidraw9", "/dev/inputevent0", "/", "/dev/dri/sub/link"};
		snprintf(b, sizeof b, "%s", v[(i - 200) % (sizeof v / sizeof *v)]);
	}
	return b;
}
void setup_fs() {
	W->fs.clear();
	char b[64];
	for (const char *d : {"/dev", "/run", "/etc", "/tmp", "/usr", "/usr/bin", "/dev/dri", "/dev/input", "/dev/dri/by-path", "/dev/input/by-path", "/dev/fb", "/dev/dri2",
			 "/dev/dri/sub", "/dev/input/event", "/dev/input/eventX"})
		node_new(d, N_DIR, 0755, 0, 0);
	for (int i = 0; i < NEV; i++) {
		snprintf(b, sizeof b, "/dev/input/event%d", i);
		node_new(b, N_EVDEV, 0600, 0, 0)->minor = i;
	}
	node_new("/dev/dri/card0", N_DRM, 0600, 0, 0)->minor = 0;
	node_new("/dev/dri/card1", N_DRM, 0600, 0, 0)->minor = 1;
	node_new("/dev/dri/renderD128", N_RENDER, 0600, 0, 0)->minor = 128;
	node_new("/dev/hidraw0", N_HIDRAW, 0600, 0, 0)->minor = 0;
	node_new("/dev/hidraw1", N_HIDRAW, 0600, 0, 0)->minor = 1;
	node_new("/dev/mem", N_REG, 0600, 0, 0);
	node_new("/dev/driver", N_REG, 0600, 0, 0);
	node_new("/dev/inputevent0", N_REG, 0600, 0, 0);
	node_new("/dev/dri2/card9", N_DRM, 0600, 0, 0)->minor = 9;
	node_new("/dev/input/mouse0", N_REG, 0600, 0, 0);
	node_new("/etc/shadow", N_REG, 0600, 0, 0);
	node_new("/dev/null", N_NULL, 0666, 0, 0);
	auto link = [](const char *p, const char *t) { node_new(p, N_LINK, 0777, 0, 0)->target = t; };
	link("/dev/input/by-path/kbd", "../event0");
	link("/dev/dri/by-path/card", "../card0");
	link("/dev/my-event", "/dev/input/event2");
	link("/dev/input/event-link", "event4");
	link("/dev/dri/evil", "../mem");
	link("/dev/input/event-evil", "/etc/shadow");
	link("/dev/hidraw-evil", "mem");
	link("/dev/loop-a", "loop-b");
	link("/dev/loop-b", "loop-a");
	link("/dev/dri/sub/link", "../card0");
	for (int i = 0; i <= 12; i++) {
		snprintf(b, sizeof b, "/dev/tty%d", i);
		node_new(b, N_TTYDEV, 0620, 0, 5)->vt = i;
	}
	W->fg = 1;
	W->vt[1].allocated = true;
}
std::vector<Op *> ops_of(int actor) {
	std::vector<Op *> v;
	for (auto &o : W->plan->ops)
		if (o.actor == actor) v.push_back(&o);
	return v;
}
static long arg(Op *o, size_t i, long d = 0) { return i < o->a.size() ? o->a[i] : d; }
void wait_for(File *f, short ev, u64 deadline, int ph) {
	cur->waits.clear();
	if (f) {
		cur->waits.push_back({f, ev, -1});
	}
	cur->ready = [ph]() { return G->phase > ph; };
	cur->deadline = deadline;
	wait_ready();
	cur->deadline = ~0ull;
	cur->ready = nullptr;
	cur->waits.clear();
}
bool daemon_ready() {
	auto it = W->fs.find(G->sock);
	return it != W->fs.end() && it->second->type == N_SOCK && it->second->listener && it->second->listener->listening;
}
static bool wait_daemon(int ph) {
	int n = 0;
	while (!daemon_ready() && G->phase <= ph && n++ < 400) {
		u64 dl = W->now + 200000;
		wait_for(nullptr, 0, dl, ph);
		sim_sched_yield();
		if (G->daemon && (G->daemon->st == P_DEAD || G->daemon->st == P_ZOMBIE) && n > 20) return false;
	}
	return daemon_ready();
}
static void wait_vt(int n, int ph) {
	u64 end = W->now + 20000000;
	while (W->fg != n && W->now < end && G->phase <= ph) {
		cur->ready = [n, ph]() { return G->phase > ph || W->fg == n; };
		cur->deadline = end;
		wait_ready();
		cur->deadline = ~0ull;
		cur->ready = nullptr;
	}
}

// ------------------------------------------------------------------ daemon
// Signals a process blocks from its start, as what started it did
static u64 blocked_signals(int m) {
	u64 r = 0;
	if (m & 1) r |= 1ull << SIGUSR1;
	if (m & 2) r |= 1ull << SIGUSR2;
	if (m & 4) r |= 1ull << SIGTERM;
	if (m & 8) r |= 1ull << SIGINT;
	return r;
}
Proc *spawn_daemon(int actor, const std::vector<std::string> &args, bool vt_bound, int ppid) {
	Proc *p = proc_new("seatd", actor, IMG_S, nullptr);
	p->argv_store = {"seatd"};
	for (auto &a : args) p->argv_store.push_back(a);
	p->argv_ptr.clear();
	for (auto &s : p->argv_store) p->argv_ptr.push_back(&s[0]);
	p->argv_ptr.push_back(nullptr);
	p->entry = [p]() { return S_main((int)p->argv_store.size(), p->argv_ptr.data()); };
	p->is_daemon = true;
	p->faultable = true;
	p->fd_limit = (int)W->plan->get("fdlimit", 1024);
	p->ppid = ppid ? ppid : 1;
	p->sigrun = blocked_signals((int)W->plan->get("dmask", 0));
	static const int UM[] = {022, 0, 077, 002};
	p->umask_ = UM[W->plan->get("umask", 0) & 3];
	p->env.push_back({"SEATD_VTBOUND", vt_bound ? "1" : "0"});
	p->env.push_back({"SEATD_LOGLEVEL", "debug"});
	return p;
}

// ------------------------------------------------------------------ raw protocol client
static void raw_close(Cli *c) {
	if (c->fd >= 0) sim_close(c->fd);
	c->fd = -1;
	for (int f : c->fds) sim_close(f);
	c->fds.clear();
	c->ids.clear();
	c->in.clear();
	c->owed = 0;
	c->eof = false;
}
static bool raw_send(Cli *c, const char *d, size_t n, const std::vector<int> &fds, size_t frag) {
	size_t o = 0;
	if (c->fd < 0 || c->eof) return false;
	int idle = 0;
	while (o < n) {
		size_t k = frag ? std::min(frag, n - o) : n - o;
		struct iovec v = {(void *)(d + o), k};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		char ctl[CMSG_SPACE(64 * sizeof(int))];
		if (o == 0 && !fds.empty()) {
			memset(ctl, 0, sizeof ctl);
			m.msg_control = ctl;
			m.msg_controllen = CMSG_SPACE(fds.size() * sizeof(int));
			struct cmsghdr *h = CMSG_FIRSTHDR(&m);
			h->cmsg_level = SOL_SOCKET;
			h->cmsg_type = SCM_RIGHTS;
			h->cmsg_len = CMSG_LEN(fds.size() * sizeof(int));
			memcpy(CMSG_DATA(h), fds.data(), fds.size() * sizeof(int));
			m.msg_controllen = h->cmsg_len;
		}
		ssize_t r = sim_sendmsg(c->fd, &m, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (r >= 0) {
			o += (size_t)r;
			continue;
		}
		if (errno == EINTR) continue;
		if (errno != EAGAIN) {
			c->eof = true;
			return false;
		}
		if (++idle > 2000) return false;
		wait_for(fd_get(cur, c->fd), POLLOUT, ~0ull, PH_END);
		if (G->phase >= PH_END) return false;
	}
	return true;
}
static std::string frame(int op, const std::string &body) {
	std::string s;
	uint16_t h[2] = {(uint16_t)op, (uint16_t)body.size()};
	s.append((char *)h, 4);
	return s + body;
}
static std::string req_bytes(int op, long a, const std::string &path) {
	std::string b;
	int v = (int)a;
	if (op == C_OPEN_DEVICE) {
		uint16_t n = (uint16_t)(path.size() + 1);
		b.append((char *)&n, 2);
		b += path;
		b.push_back(0);
	} else if (op == C_CLOSE_DEVICE || op == C_SWITCH_SESSION) b.append((char *)&v, 4);
	return frame(op, b);
}
static void raw_ack(Cli *c) {
	while (c->owed > 0) {
		c->owed--;
		std::string s = req_bytes(C_DISABLE_SEAT, 0, "");
		raw_send(c, s.data(), s.size(), {}, 0);
	}
}
static void raw_parse(Cli *c) {
	while (c->in.size() >= 4) {
		uint16_t h[2];
		memcpy(h, c->in.data(), 4);
		if (c->in.size() < 4u + h[1]) return;
		if (h[0] == S_DISABLE_SEAT) c->owed++;
		if (h[0] == S_DEVICE_OPENED && h[1] == 4) {
			int id;
			memcpy(&id, c->in.data() + 4, 4);
			c->ids.push_back(id);
		}
		c->in.erase(0, 4 + h[1]);
	}
}
// Reads what is there. Returns false when nothing was.
static bool raw_recv(Cli *c, size_t max = 4096) {
	if (c->fd < 0) return false;
	static char buf[4096];
	char ctl[CMSG_SPACE(64 * sizeof(int))];
	struct iovec v = {buf, std::min(max, sizeof buf)};
	struct msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	m.msg_control = ctl;
	m.msg_controllen = sizeof ctl;
	ssize_t r = sim_recvmsg(c->fd, &m, MSG_DONTWAIT);
	if (r < 0) {
		if (errno != EAGAIN && errno != EINTR) c->eof = true;
		return false;
	}
	if (r == 0) {
		c->eof = true;
		return false;
	}
	for (struct cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h))
		if (h->cmsg_type == SCM_RIGHTS) {
			size_t n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			for (size_t i = 0; i < n; i++) {
				int fd;
				memcpy(&fd, CMSG_DATA(h) + i * sizeof(int), sizeof fd);
				c->fds.push_back(fd);
			}
		}
	c->in.append(buf, (size_t)r);
	raw_parse(c);
	if (c->ack == 0 || G->phase >= PH_HEAL) raw_ack(c);
	return true;
}
static void raw_wait(Cli *c, u64 deadline, int ph) {
	File *f = c->fd >= 0 && !c->eof ? fd_get(cur, c->fd) : nullptr;
	if (f && (!c->stalled || G->phase >= PH_HEAL)) {
		wait_for(f, POLLIN, deadline, ph);
		raw_recv(c);
	} else wait_for(nullptr, 0, deadline, ph);
}
static void find_conn(Cli *c);
static int raw_connect() {
	int fd = sim_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	if (fd < 0) return -1;
	struct sockaddr_un u = {};
	u.sun_family = AF_UNIX;
	strcpy(u.sun_path, G->sock.c_str());
	for (int i = 0; i < 50; i++) {
		if (sim_connect(fd, (struct sockaddr *)&u, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(u.sun_path))) == 0) return fd;
		if (errno != EAGAIN) break;
		wait_for(nullptr, 0, W->now + 100000, PH_MAIN);
	}
	sim_close(fd);
	return -1;
}
static void raw_op(Cli *c, Op *o) {
	const std::string &v = o->verb;
	if (v == "connect") {
		if (c->fd >= 0) raw_close(c);
		if (!wait_daemon(PH_MAIN)) return;
		c->fd = raw_connect();
	} else if (v == "crowd") {
		// so many more connections, each of which pings or says nothing (1) or half a message (2)
		for (long k = 0; k < arg(o, 0) && wait_daemon(PH_MAIN); k++) {
			int fd = raw_connect();
			if (fd < 0) break;
			c->crowd.push_back(fd);
			std::string s = req_bytes(C_PING, 0, "");
			if (arg(o, 1) == 2) s = s.substr(0, 2);
			if (arg(o, 1) != 1) sim_send(fd, s.data(), s.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
		}
		W->probe["crowd"]++;
	} else if (v == "uncrowd") {
		// every so manieth leaves, beginning with a given one
		std::vector<int> keep;
		for (size_t k = 0; k < c->crowd.size(); k++)
			if ((long)k >= arg(o, 1) && (k - (size_t)arg(o, 1)) % (size_t)std::max(1l, arg(o, 0, 1)) == 0) sim_close(c->crowd[k]);
			else keep.push_back(c->crowd[k]);
		c->crowd = keep;
	} else if (v == "req" || v == "reqn") {
		// op, argument, fragment size, repeat, path
		std::string s;
		long n = std::max(1l, arg(o, 3, 1));
		for (long i = 0; i < n; i++) {
			long a = arg(o, 1);
			if (arg(o, 0) == C_CLOSE_DEVICE && a < 0 && !c->ids.empty()) a = c->ids[(size_t)(-a - 1) % c->ids.size()];
			std::string path = o->s.empty() ? dev_path(a + (arg(o, 4) ? i : 0)) : o->s;
			s += req_bytes((int)arg(o, 0), a, path);
		}
		raw_send(c, s.data(), s.size(), {}, (size_t)arg(o, 2));
	} else if (v == "raw") {
		std::string s;
		for (size_t i = 0; i + 1 < o->s.size(); i += 2) s.push_back((char)strtol(o->s.substr(i, 2).c_str(), nullptr, 16));
		raw_send(c, s.data(), s.size(), {}, (size_t)arg(o, 0));
	} else if (v == "fds") {
		std::vector<int> fd(std::min(60l, std::max(1l, arg(o, 0, 1))), 0);
		std::string s = req_bytes(C_PING, 0, "");
		if (arg(o, 1)) s = s.substr(0, 2);
		raw_send(c, s.data(), s.size(), fd, 0);
	} else if (v == "recv") {
		while (raw_recv(c, (size_t)arg(o, 0, 4096)))
			if (arg(o, 0)) break;
	} else if (v == "wait") {
		u64 dl = W->now + (u64)arg(o, 0, 100) * 1000;
		u64 rounds = 0;
		while (W->now < dl && G->phase == PH_MAIN && rounds++ < 200 && !c->eof) raw_wait(c, dl, PH_MAIN);
	} else if (v == "pause") {
		wait_for(nullptr, 0, W->now + (u64)arg(o, 0, 100) * 1000, PH_MAIN);
		sim_sched_yield();
	} else if (v == "ack") raw_ack(c);
	else if (v == "badack") {
		std::string s = req_bytes(C_DISABLE_SEAT, 0, "");
		raw_send(c, s.data(), s.size(), {}, 0);
	} else if (v == "ackmode") c->ack = (int)arg(o, 0);
	else if (v == "stall") c->stalled = true;
	else if (v == "fill") {
		// stops reading and lets the daemon answer until all but so many bytes of its buffer are taken
		c->stalled = true;
		find_conn(c);
		Conn *k = c->conn;
		long goal = 256 - arg(o, 0);
		for (int i = 0; k && i < 120 && c->fd >= 0 && !k->closed && (long)k->unsent.size() < goal && G->phase == PH_MAIN; i++) {
			bool err = goal - (long)k->unsent.size() >= 8 && k->has_seat();
			std::string s = err ? req_bytes(C_CLOSE_DEVICE, 9999, "") : req_bytes(C_PING, 0, "");
			raw_send(c, s.data(), s.size(), {}, 0);
			wait_for(nullptr, 0, W->now + 200, PH_MAIN);
			sim_sched_yield();
		}
		if (k && !k->closed && (long)k->unsent.size() >= goal) W->probe["lag.filled"]++;
	} else if (v == "unstall") c->stalled = false;
	else if (v == "waitvt") wait_vt((int)arg(o, 0), PH_MAIN);
	else if (v == "shut") {
		if (c->fd >= 0) sim_shutdown(c->fd, (int)arg(o, 0));
	} else if (v == "dropfds") {
		for (int f : c->fds) sim_close(f);
		c->fds.clear();
	} else if (v == "close") raw_close(c);
	else if (v == "die") proc_exit(0);
}
static int raw_main(Cli *c) {
	for (auto o : c->ops) {
		if (G->phase > PH_MAIN) break;
		raw_op(c, o);
	}
	c->ops_done = true;
	while (G->phase < PH_END) {
		if (G->phase >= PH_HEAL) {
			c->stalled = false;
			if (c->fd >= 0 && !c->eof) raw_ack(c);
		}
		if (c->eof) {
			if (c->fd >= 0) raw_close(c);
			c->eof = true;
		}
		int ph = G->phase;
		raw_wait(c, ~0ull, ph);
		sim_sched_yield();
	}
	if (c->fd >= 0 && c->end == 0) {
		std::string s = req_bytes(C_CLOSE_SEAT, 0, "");
		raw_send(c, s.data(), s.size(), {}, 0);
	}
	if (c->end <= 1) {
		raw_close(c);
		for (int fd : c->crowd) sim_close(fd);
	}
	return 0;
}

// ------------------------------------------------------------------ application on libseat
static size_t count_fds(Proc *p) {
	size_t n = 0;
	for (auto &e : p->fds) n += e.f != nullptr;
	for (auto &e : orc().app_fds)
		if (e.first.first == p->pid) n--;
	return n;
}
static bool wire_backend(Cli *c) { return c->conn != nullptr; }
static void find_conn(Cli *c) {
	if (!c->conn) c->conn = orc().newest_conn_of(c->p);
}
static const char *PSEAT = "C16 C17 C18 C19";
static size_t events_rcvd(Conn *k) {
	size_t n = 0;
	while (n < k->evs.size() && k->evs[n].end <= k->rcvd) n++;
	return n;
}
static void call_begin(Cli *c, const char *name) {
	c->calls.push_back({name, 0});
	c->p->in_call = name;
	c->p->call_blocked = c->p->blocks;
	trace("app: %s {", name);
}
static void call_end(Cli *c, const char *name, long r, int err) {
	c->calls.pop_back();
	c->p->in_call = c->calls.empty() || c->in_cb ? nullptr : c->calls.back().first;
	trace("app: } %s = %ld (%s)", name, r, r < 0 ? strerror(err) : "");
	mixh(0xca11 ^ (u64)r ^ ((u64)(r < 0 ? err : 0) << 32));
	G->count[std::string("call.") + name + (r < 0 ? ".fail" : ".ok")]++;
	u64 h = mix64(0xabc ^ (u64)c->be ^ (u64)(name[0] + name[2] * 256) << 8 ^ (u64)(r < 0 ? err : 0) << 24);
	h = mix64(h ^ (c->evs.empty() ? 0 : (u64)c->evs.back()) ^ std::min<size_t>(c->devs.size(), 3) << 8 ^ (u64)c->app_owe << 12 ^ (u64)c->broken << 13 ^ (u64)c->calls.size() << 16);
	if (c->conn) h = mix64(h ^ (u64)c->conn->st ^ (u64)(c->conn->evs.size() > c->evs.size()) << 4 ^ (u64)(c->conn->rcvd < c->conn->sent) << 5);
	if (c->be == B_LOGIND) {
		int pend = 0;
		for (auto &d : logind().dev) pend += d.second.pend;
		h = mix64(h ^ (u64)logind().active ^ (u64)logind().pausing << 1 ^ (u64)std::min(pend, 2) << 2 ^ std::min<size_t>(logind_queued(), 3) << 6);
	}
	W->states.insert(h);
}
struct Pre {
	u64 csent = 0, faults = 0, blocks = 0;
	bool peer_gone = false, broken = false;
};
static bool peer_lost(Cli *c) {
	if (!c->conn) return false;
	return c->conn->closed || !c->conn->cf || c->conn->cf->peer_gone;
}
// The server gave up the connection, which excuses failures. Unlike peer_lost() this does not hold
// just because libseat itself closed it.
static bool server_gone(Cli *c) {
	if (!c->conn) return false;
	if (c->conn->cleft) return c->conn->cleft_lost;
	return peer_lost(c) || c->conn->cf->shut_rd || c->conn->cf->so_err;
}
static Pre pre(Cli *c) {
	Pre q;
	find_conn(c);
	if (c->conn) q.csent = c->conn->csent;
	q.faults = c->p->nfaults;
	q.peer_gone = peer_lost(c);
	q.broken = c->broken;
	q.blocks = c->p->blocks;
	return q;
}
// Some bytes that are not valid arrived, which excuses failures; all of them did, which demands one.
static bool bad_seen(Cli *c) { return c->conn && c->conn->wire_bad && c->conn->rcvd > c->conn->bad_at; }
static bool bad_received(Cli *c) { return c->conn && c->conn->wire_bad && c->conn->rcvd >= c->conn->bad_end; }
// After a request of the seatd protocol: compares the result with what the daemon sent.
static void post(Cli *c, const Pre &q, const char *name, int want, bool ok, int err, int id, int fd, bool invalid) {
	for (size_t i = 0; i < c->calls.size(); i++)
		if (!strcmp(c->calls[i].first, "close") && want != S_SEAT_CLOSED) return; // nested in a callback of close
	if (c->be == B_LOGIND || c->be == B_NOOP) return;
	Conn *k = c->conn;
	if (!ok && err <= 0) violation("C19 C18", "failure-without-errno", "%s fails but errno is %d", name, err);
	if (!k) return;
	if (invalid) {
		if (ok) violation("C18", "invalid-accepted", "%s succeeds with an invalid argument", name);
		else if (err != EINVAL && !q.broken && !q.peer_gone) violation("C18", "invalid-errno", "%s with an invalid argument fails with %s", name, strerror(err));
		else if (k->csent != q.csent) violation("C18", "invalid-sent", "%s with an invalid argument sends %llu bytes", name, (unsigned long long)(k->csent - q.csent));
		return;
	}
	bool avail = k->replies.size() > c->matched && k->replies[c->matched].end <= k->rcvd;
	Reply r;
	if (avail) r = k->replies[c->matched];
	bool hard = c->p->nfaults != q.faults;
	if (hard) c->maybe = true;
	if (ok) {
		if (q.broken) violation("C19", "success-after-loss", "%s succeeds after the connection was lost", name);
		else if (!avail) violation("C18 C19", "success-without-reply", "%s succeeds but the daemon did not reply", name);
		else if (r.op != want) violation("C18", "success-for-other-reply", "%s succeeds but the daemon replied %x (error %d)", name, r.op, r.err);
		else if (want == S_DEVICE_OPENED) {
			File *f = fd_get(c->p, fd);
			if (id != r.id) violation("C18", "wrong-id", "%s returns id %d but the daemon replied %d", name, id, r.id);
			if (!f) violation("C18 C20", "bad-descriptor", "%s returns descriptor %d which is not open", name, fd);
			else if (f->id != r.file) violation("C18", "wrong-descriptor", "%s returns the descriptor of another device", name);
			else if (!c->p->fds[fd].cloexec) G->count["cloexec.missing"]++;
		}
		if (avail) c->matched++;
		return;
	}
	if (avail) {
		c->matched++;
		if (r.op == S_ERROR) {
			if (r.err != err && !hard && !q.broken && !bad_seen(c))
				violation("C18", "wrong-errno", "%s fails with %s but the daemon replied error %d (%s)", name, strerror(err), r.err, strerror(r.err));
		} else if (!hard && !q.broken && !bad_seen(c) && !server_gone(c))
			violation("C18", "failed-after-success", "%s fails with %s although the daemon replied success", name, strerror(err));
		if (hard) c->maybe = true;
	} else {
		if (!hard && !q.broken && !c->maybe && !server_gone(c) && !bad_seen(c) && !(k->srv && k->srv->exited))
			violation("C18", "failed-without-reply", "%s fails with %s although the daemon did not reply yet", name, strerror(err));
		if (hard) c->maybe = true;
		else c->broken = true;
		// what the daemon answers later answers this request
		if (k->csent > q.csent) c->matched++;
	}
}
static int app_disable(Cli *c, libseat *s);
static int app_open_dev(Cli *c, libseat *s, const std::string &path);
static int app_close_dev(Cli *c, libseat *s, size_t i, bool close_fd);
static void on_event(Cli *c, libseat *s, char k) {
	const char *top = c->calls.empty() ? "nothing" : c->calls.back().first;
	if (strcmp(top, "open") && strcmp(top, "dispatch") && strcmp(top, "close"))
		violation("C16", "callback-outside", "the %s callback runs inside %s", k == 'E' ? "enable" : "disable", top);
	trace("app: callback %c in %s", k, top);
	mixh(0xcb ^ k);
	find_conn(c);
	if (!c->cb_ran) c->cb_first_block = c->p->blocks, c->cb_first_poll = c->p->polls;
	c->cb_ran = true;
	c->evs.push_back(k);
	c->p->in_call = nullptr;
	c->in_cb++;
	if (c->be == B_LOGIND) {
		size_t n = c->evs.size();
		if (n == 1) {
			if (k != (c->open_active > 0 ? 'E' : 'D'))
				violation("C24", "first-event", "the first event is %c but the session was %s when the seat was opened", k, c->open_active > 0 ? "active" : "inactive");
			if (strcmp(top, "dispatch")) violation("C24", "first-event", "the first event is delivered by %s", top);
		} else if (c->evs[n - 2] == k) violation("C24", "not-alternating", "two consecutive %c callbacks", k);
		else {
			int seen = (int)std::count(c->evs.begin() + 1, c->evs.end(), k), said = k == 'E' ? logind().n_on - c->on_at_open : logind().n_off - c->off_at_open;
			if (seen > said) violation("C24", "event-unfounded", "the %c callback runs %d times since the seat was opened but logind said so %d times", k, seen, said);
		}
	} else if (c->be == B_NOOP) {
		if (k != 'E' || c->evs.size() > 1) violation("C27", "noop-events", "noop seat delivers event %zu: %c", c->evs.size(), k);
	} else if (c->conn) {
		size_t i = c->evs.size() - 1;
		if (c->p->nfaults != c->faults_at_open && (c->conn->evs.size() <= i || c->conn->evs[i].k != k)) c->maybe = true; // one could not be stored
		else if (i >= c->conn->evs.size() || c->conn->evs[i].k != k || c->conn->evs[i].end > c->conn->rcvd)
			violation("C16", "event-order", "callback %zu is %c but the daemon sent %s", i + 1, k,
				i >= c->conn->evs.size() ? "fewer events" : c->conn->evs[i].k == k ? "it later" : "the other event");
		if (!strcmp(top, "open") && c->matched == 0 && !c->conn->replies.empty()) c->matched = 1;
	}
	bool closing = false;
	for (auto &x : c->calls) closing |= !strcmp(x.first, "close");
	if (k == 'D') {
		if (c->ack == 0 && !(closing && W->plan->get("noackclose", 0))) {
			c->cb_calls = true;
			app_disable(c, s);
		} else c->app_owe = true;
	} else {
		c->app_owe = false;
		if (c->reopen_in_enable && !closing && c->devs.size() < 6) {
			c->cb_calls = true;
			app_open_dev(c, s, dev_path((long)(c->evs.size() * 7 % 145)));
		}
	}
	c->in_cb--;
	c->p->in_call = top;
	errno = 0; // the application's own business
}
static void cb_enable(libseat *s, void *ud) { on_event((Cli *)ud, s, 'E'); }
static void cb_disable(libseat *s, void *ud) { on_event((Cli *)ud, s, 'D'); }
static const libseat_seat_listener listener = {cb_enable, cb_disable};

static void check_leak(Cli *c, const char *when) {
	size_t n = count_fds(c->p);
	if (n != c->base_fds) violation("C20 C25 C27", n > c->base_fds ? "descriptor-leak" : "descriptor-lost", "%s the process has %zu descriptors, %zu before the seat was opened", when, n, c->base_fds);
	if (c->p->allocs != c->base_allocs)
		violation("C20 C25 C27", "memory-leak", "%s the process has %ld allocations, %ld before the seat was opened", when, c->p->allocs, c->base_allocs);
}
std::string xsock_path(int k) {
	if (k == 1) return "/run/seatd.sock";
	if (k == 2) return "/run/none.sock";
	if (k == 3) return "/run/alt.sock";
	return "/run/" + std::string(k == 4 ? 102 : 150, 'x'); // 107 characters are the most that fit
}
// Which backends were tried, and is the one in use the first that works?
struct Sel {
	size_t tries = 0;
	u64 faults = 0;
	bool seatd = false, logind = false, sure = false;
	std::string path;
	int d_faults = 0;
};
static Sel sel_begin(Cli *c) {
	Sel s;
	s.tries = orc().tries.size();
	s.faults = c->p->nfaults;
	for (auto p : W->procs)
		if (p->is_builtin) s.faults += p->nfaults;
	s.path = "/run/seatd.sock";
	for (auto &e : c->p->env)
		if (e.first == "SEATD_SOCK") s.path = e.second;
	auto it = W->fs.find(s.path);
	bool node = s.path.size() <= 107 && it != W->fs.end() && it->second->type == N_SOCK && it->second->listener && it->second->listener->listening;
	Proc *d = G->daemon ? G->daemon : G->fake;
	s.seatd = node && !W->plan->get("fakeopen");
	s.sure = c->p->uid == 0 && c->p->fd_limit >= 64 && (!d || (!d->nfaults && !d->stopped && d->st != P_ZOMBIE && d->st != P_DEAD));
	LogindModel &l = logind();
	long xi = W->plan->get("xdgid");
	s.logind = l.present && !l.died && !l.controller && l.has_seat && (xi ? xi == 1 : l.has_pid_session || l.has_display);
	return s;
}
static const char *be_name(int b) {
	static const char *n[] = {"seatd", "builtin", "logind", "noop", "none"};
	return n[b > 4 ? 4 : b];
}
static void sel_end(Cli *c, const Sel &b, libseat *seat, int err) {
	bool ok = seat != nullptr;
	Sel e = sel_begin(c);
	bool ts = false, tl = false, tb = false, first = true;
	std::string order;
	for (size_t i = b.tries; i < orc().tries.size(); i++) {
		auto &t = orc().tries[i];
		if (t.first != c->pid) continue;
		if (t.second == "logind") tl = true, order += 'l';
		else if (t.second == "builtin") tb = true, order += 'b';
		else {
			ts = true, order += 's';
			if (t.second.substr(6) != b.path) violation("C27", "wrong-socket", "libseat connects to '%s' instead of '%s'", t.second.substr(6).c_str(), b.path.c_str());
		}
	}
	(void)first;
	bool sorted = order.find("ls") == std::string::npos && order.find("bs") == std::string::npos && order.find("bl") == std::string::npos;
	bool clean = e.faults == b.faults && b.sure && e.sure && !c->stopped_once && b.seatd == e.seatd && b.logind == e.logind;
	if (c->be_conf == B_AUTO + 1) {
		if (ok) violation("C27", "unknown-backend", "an unknown backend name yields a seat");
		else if (err != EINVAL) violation("C27", "unknown-backend", "an unknown backend name fails with %s", strerror(err));
		if (ts || tl || tb) violation("C27", "unknown-backend", "an unknown backend name makes libseat try %s", order.c_str());
		return;
	}
	if (c->be_conf != B_AUTO) {
		if ((ts && c->be_conf != B_SEATD) || (tl && c->be_conf != B_LOGIND) || (tb && c->be_conf != B_BUILTIN))
			violation("C27", "other-backend-tried", "backend %s was asked for but %s were tried", be_name(c->be_conf), order.c_str());
		bool works = c->be_conf == B_SEATD ? b.seatd : c->be_conf == B_LOGIND ? b.logind : true;
		if (clean && W->stop_prop == "C27" && ok != works) violation("C27", "named-backend", "backend %s %s but opening it %s (%s)", be_name(c->be_conf), works ? "works" : "does not work", ok ? "succeeds" : "fails", strerror(err));
		return;
	}
	if (!sorted) violation("C27", "order", "backends were tried in the order %s", order.c_str());
	if (!ok) {
		c->be = B_AUTO;
		if (err != ENOSYS) violation("C27", "none-works-errno", "no backend works but errno is %s", strerror(err));
		if (clean) violation("C27", "none-chosen", "no backend was chosen (seatd %s, logind %s)", b.seatd ? "works" : "does not", b.logind ? "works" : "does not");
		return;
	}
	c->be = order.empty() ? B_NOOP : order.back() == 's' ? B_SEATD : order.back() == 'l' ? B_LOGIND : B_BUILTIN;
	File *f = fd_get(c->p, L_libseat_get_fd(seat));
	for (auto &x : c->p->fds) // both ends in the same process: it talks to nobody
		if (f && x.f && f->type == F_SOCK && f->peer == x.f) c->be = B_NOOP;
	W->probe[std::string("selected.") + be_name(c->be)]++;
	if (c->be == B_NOOP) violation("C27", "noop-chosen", "the noop backend was chosen without being asked for");
	int want = b.seatd ? B_SEATD : b.logind ? B_LOGIND : B_BUILTIN;
	if (clean && c->be != want) violation("C27", "not-the-first", "backend %s was chosen instead of %s", be_name(c->be), be_name(want));
	if (c->be == B_SEATD && (tl || tb)) violation("C27", "order", "later backends were tried although seatd works");
	if (c->be == B_LOGIND && tb) violation("C27", "order", "later backends were tried although logind works");
}
static void app_open(Cli *c) {
	if (c->seat) return;
	c->be = c->be_conf;
	c->conn = nullptr;
	c->evs.clear();
	c->matched = c->pongs = 0;
	c->broken = c->app_owe = c->maybe = false;
	c->bad_dispatch = 0;
	c->first_dispatched = false;
	c->cb_ran = c->cb_calls = false;
	c->base_fds = count_fds(c->p);
	c->base_allocs = c->p->allocs;
	logind().active_read = -1;
	c->bus_faults_at_open = orc().bus_faults;
	int tc = logind().take_control;
	size_t nconn = orc().conns.size();
	u64 nf = c->p->nfaults;
	c->faults_at_open = nf;
	int last_pid = W->next_pid - 1;
	c->opens++;
	c->open_active = -1;
	c->on_at_open = logind().n_on, c->off_at_open = logind().n_off;
	Sel sel = sel_begin(c);
	errno = 0;
	call_begin(c, "open");
	libseat *s = L_libseat_open_seat(&listener, c);
	int err = errno;
	c->open_active = logind().active_read;
	call_end(c, "open", s ? 0 : -1, err);
	sel_end(c, sel, s, err);
	find_conn(c);
	if (c->be == B_LOGIND) {
		if (s && logind().take_control != tc + 1) violation("C25", "take-control", "opening the seat took control %d times", logind().take_control - tc);
		if (!s) {
			if (logind().controller && logind().controller != (void *)&logind())
				violation("C25", "control-kept", "opening the seat failed but control was not given back");
			if (err <= 0) violation("C25", "failure-without-errno", "opening the seat fails but errno is 0");
		}
	} else if (!s && err <= 0) violation("C19 C27", "failure-without-errno", "opening the seat fails but errno is 0");
	if (!s) {
		c->open_failed = true;
		if (c->be == B_BUILTIN && c->p->nfaults == nf && c->p->fd_limit >= 128 && !c->stopped_once) {
			bool excused = false; // what happened to the helper?
			for (auto s : orc().srvs)
				if (s->builtin && s->p->ppid == c->pid) excused |= s->faults || s->tty_faults || s->term || WIFSIGNALED(s->p->exit_status);
			for (auto q : W->procs) // killed before it became one
				if (q->pid > last_pid && (q->ppid == c->pid || q->ppid == 1) && WIFSIGNALED(q->exit_status)) excused = true;
			if (!excused) violation("C23", "no-working-seat", "opening a built-in seat fails with %s although nothing went wrong", strerror(err));
		}
		check_leak(c, "after opening failed");
		if (c->be != B_LOGIND && c->be != B_NOOP && nconn < orc().conns.size()) {
			Conn *k = orc().conns.back();
			if (k->cpid == c->pid && !k->replies.empty() && k->replies[0].op == S_SEAT_OPENED && k->replies[0].end <= k->rcvd && c->p->nfaults == nf && !k->wire_bad)
				violation("C18", "open-failed-after-success", "opening the seat fails with %s although the daemon accepted", strerror(err));
		}
		c->conn = nullptr;
		return;
	}
	c->seat = s;
	if (c->p->nfaults != nf) c->maybe = true; // what follows may fail for what happened meanwhile
	if (c->conn && c->be != B_LOGIND && c->be != B_NOOP) {
		Conn *k = c->conn;
		if (k->replies.empty() || k->replies[0].op != S_SEAT_OPENED || k->replies[0].end > k->rcvd)
			violation("C18 C19", "success-without-reply", "opening the seat succeeds but the daemon did not accept");
		else c->matched = std::max(c->matched, (size_t)1);
		const char *n = L_libseat_seat_name(s);
		if (!n || !memchr(n, 0, 64)) violation("C18 C19", "seat-name", "the seat has no name");
	}
}
static int app_disable(Cli *c, libseat *s) {
	if (!s) return -1;
	Pre q = pre(c);
	errno = 0;
	c->app_owe = false;
	call_begin(c, "disable");
	int r = L_libseat_disable_seat(s);
	int err = errno;
	call_end(c, "disable", r, err);
	post(c, q, "disable", S_SEAT_DISABLED, r == 0, err, 0, -1, false);
	return r;
}
static int app_open_dev(Cli *c, libseat *s, const std::string &path) {
	if (!s) return -1;
	Pre q = pre(c);
	int fd = -77;
	std::string canon0, canon1;
	k_realpath(path, canon0, true);
	long al = c->p->allocs;
	size_t nf = count_fds(c->p);
	int nt = logind().n_take;
	std::set<std::pair<int, int>> taken;
	for (auto &d : logind().dev) taken.insert(d.first);
	u64 bf = orc().bus_faults;
	errno = 0;
	call_begin(c, "open_device");
	int r = L_libseat_open_device(s, path.c_str(), &fd);
	int err = errno;
	call_end(c, "open_device", r, err);
	post(c, q, "open_device", S_DEVICE_OPENED, r >= 0, err, r, fd, path.size() + 1 > 250);
	if (c->be == B_LOGIND) {
		if (r >= 0) {
			File *f = fd_get(c->p, fd);
			if (!f || !(is_dev(f))) violation("C25", "bad-descriptor", "opening %s yields descriptor %d which is no device", path.c_str(), fd);
			else if (!c->p->fds[fd].cloexec) violation("C25", "not-cloexec", "the descriptor for %s is not close-on-exec", path.c_str());
			else {
				std::string canon;
				if (k_realpath(path, canon, true) == 0 && canon != f->path) violation("C25", "wrong-device", "opening %s yields %s", path.c_str(), f->path.c_str());
			}
			if (logind().n_take != nt + 1) violation("C25", "take-device", "opening one device took %d", logind().n_take - nt);
			if (count_fds(c->p) != nf + 1 - 0 && f) {
				// only the descriptor handed out is new
				violation("C25 C20", "descriptor-leak", "opening a device makes %ld descriptors", (long)count_fds(c->p) - (long)nf);
			}
		} else {
			if (err <= 0) violation("C25", "failure-without-errno", "opening %s fails but errno is 0", path.c_str());
			if (count_fds(c->p) != nf) violation("C25 C20", "descriptor-leak", "a failed open leaves %ld descriptors", (long)count_fds(c->p) - (long)nf);
			if (c->p->allocs != al) violation("C25 C20", "memory-leak", "a failed open leaves %ld allocations", c->p->allocs - al);
			if (bf == orc().bus_faults && !logind().died)
				for (auto &d : logind().dev)
					if (!taken.count(d.first)) violation("C25", "device-kept", "opening %s fails but logind keeps %s for the session", path.c_str(), d.second.path.c_str());
		}
	}
	if (c->be == B_NOOP) {
		File *f = r >= 0 ? fd_get(c->p, fd) : nullptr;
		if (r >= 0 && !f) violation("C27", "bad-descriptor", "opening %s on the noop seat yields descriptor %d which is not open", path.c_str(), fd);
		else if (r >= 0 && k_realpath(path, canon1, true) == 0 && canon0 == canon1 && c->p->nfaults == q.faults && f->path != canon1) violation("C27", "wrong-device", "opening %s on the noop seat yields %s", path.c_str(), f->path.c_str());
		if (r < 0 && err <= 0) violation("C27", "failure-without-errno", "opening %s fails but errno is 0", path.c_str());
		if (count_fds(c->p) != nf + (r >= 0)) violation("C27 C20", "descriptor-leak", "opening %s on the noop seat makes %ld descriptors", path.c_str(), (long)count_fds(c->p) - (long)nf);
	}
	if (r >= 0 && fd >= 0) {
		orc().app_fds[{c->pid, fd}] = true;
		c->devs.push_back({r, fd});
		c->dev_paths.push_back(path);
	}
	return r;
}
static void app_close_fd(Cli *c, int fd) {
	if (orc().app_fds.count({c->pid, fd})) sim_close(fd);
}
static int app_close_dev(Cli *c, libseat *s, size_t i, bool close_fd) {
	if (!s || c->devs.empty()) return -1;
	i %= c->devs.size();
	auto d = c->devs[i];
	c->devs.erase(c->devs.begin() + (long)i);
	c->dev_paths.erase(c->dev_paths.begin() + (long)i);
	Pre q = pre(c);
	int nr = logind().n_release;
	bool dead = false;
	errno = 0;
	call_begin(c, "close_device");
	int r = L_libseat_close_device(s, d.first);
	int err = errno;
	call_end(c, "close_device", r, err);
	post(c, q, "close_device", S_DEVICE_CLOSED, r >= 0, err, 0, -1, false);
	if (c->be == B_LOGIND) {
		if (r < 0 && err <= 0) violation("C25", "failure-without-errno", "closing a device fails but errno is 0");
		if (r >= 0 && logind().n_release != nr + 1) violation("C25", "release-device", "closing one device released %d", logind().n_release - nr);
		(void)dead;
	}
	if (close_fd) app_close_fd(c, d.second);
	return r;
}
static int app_switch(Cli *c, libseat *s, int n) {
	if (!s) return -1;
	Pre q = pre(c);
	int sw = logind().n_switch;
	errno = 0;
	call_begin(c, "switch");
	int r = L_libseat_switch_session(s, n);
	int err = errno;
	call_end(c, "switch", r, err);
	post(c, q, "switch", S_SESSION_SWITCHED, r >= 0, err, 0, -1, n < 0);
	if (c->be == B_LOGIND && n < 0 && (r >= 0 || logind().n_switch != sw)) violation("C25", "invalid-accepted", "switching to session %d %s", n, r >= 0 ? "succeeds" : "reaches logind");
	if (c->be == B_LOGIND && n >= 0 && r >= 0 && (logind().n_switch != sw + 1 || logind().switched_to != n))
		violation("C25", "switch-session", "switching to session %d asked logind %d times, last for %d", n, logind().n_switch - sw, logind().switched_to);
	if ((c->be == B_LOGIND || c->be == B_NOOP) && r < 0 && err <= 0) violation(c->be == B_NOOP ? "C27" : "C25", "failure-without-errno", "switching fails but errno is %d", err);
	return r;
}
static int app_dispatch(Cli *c, libseat *s, int timeout) {
	if (!s) return -1;
	Pre q = pre(c);
	size_t before = c->evs.size();
	bool avail = c->conn && events_rcvd(c->conn) > before;
	u64 t0 = W->now, st0 = W->steps;
	bool lost = q.peer_gone;
	c->cb_ran = c->cb_calls = false;
	errno = 0;
	call_begin(c, "dispatch");
	int r = L_libseat_dispatch(s, timeout);
	int err = errno;
	call_end(c, "dispatch", r, err);
	c->first_dispatched = true;
	if (c->be == B_NOOP) {
		if (c->evs != "E") violation("C27", "noop-events", "the noop seat delivered '%s'", c->evs.c_str());
		if (r < 0 && !c->p->nfaults) violation("C27", "noop-dispatch", "dispatching the noop seat fails with %s", strerror(err));
	}
	bool hard = c->p->nfaults != q.faults;
	if (hard) c->maybe = true;
	size_t got = c->evs.size() - before;
	if (got && r == 0 && c->be != B_LOGIND && c->be != B_NOOP) violation("C17", "dispatch-result", "dispatch returns 0 but delivered %zu events", got);
	if (timeout == 0 && !c->cb_ran && c->p->blocks != q.blocks && c->be != B_LOGIND) violation(c->be == B_NOOP ? "C27 C17" : "C17", "dispatch-blocked", "dispatch with timeout 0 blocks");
	if (got && !c->cb_calls && c->p->polls != c->cb_first_poll) violation(c->be == B_NOOP ? "C27 C17" : c->be == B_LOGIND ? "C25 C17" : "C17", "dispatch-blocked", "dispatch waits although it delivered an event");
	if (timeout > 0 && !c->cb_calls && !c->p->stopped && !c->stopped_once && W->now - t0 > (u64)timeout * 1000000 + 50000000 + (W->steps - st0) * 1000)
		violation(c->be == B_NOOP ? "C27 C17" : "C17", "dispatch-late", "dispatch with timeout %d takes %llu ms", timeout, (unsigned long long)((W->now - t0) / 1000000));
	if (avail && c->cb_ran && c->cb_first_block != q.blocks) violation("C17", "dispatch-blocked", "dispatch blocks although an event is waiting");
	if (avail && !got && r >= 0) violation("C17 C16", "event-not-delivered", "dispatch returns %d but a received event was not delivered", r);
	if (r > 0 && !got && c->conn) {
		if (c->conn->npong <= c->pongs) violation("C17", "dispatch-result", "dispatch returns %d but nothing was processed", r);
	}
	if (c->conn && r > 0) c->pongs = c->conn->npong > 0 ? c->conn->npong - 1 : 0; // lenient: a pong may still be on its way
	if (r < 0) {
		if (err <= 0) violation("C19 C25", "failure-without-errno", "dispatch fails but errno is %d", err);
		if (c->conn && !hard && !q.broken && !c->broken && !c->maybe && !server_gone(c) && !bad_seen(c))
			violation("C19 C17", "dispatch-failed", "dispatch fails with %s although the daemon is fine", strerror(err));
		if (c->conn && !hard) c->broken = true;
	} else if (c->conn) {
		if (q.broken) violation("C19", "success-after-loss", "dispatch returns %d after the connection was lost", r);
		if (lost || (bad_received(c) && !got)) {
			if (++c->bad_dispatch > 5) violation("C19", "dispatch-never-fails", "dispatch returns %d again and again although the daemon is gone", r);
		} else c->bad_dispatch = 0;
	}
	return r;
}

static int app_close(Cli *c) {
	if (!c->seat) return -1;
	libseat *s = c->seat;
	Pre q = pre(c);
	int rc = logind().release_control;
	bool ctl = logind().controller != nullptr;
	u64 bf = orc().bus_faults;
	c->cb_ran = c->cb_calls = false;
	errno = 0;
	call_begin(c, "close");
	int r = L_libseat_close_seat(s);
	int err = errno;
	c->seat = nullptr;
	call_end(c, "close", r, err);
	if (c->conn && c->be != B_LOGIND && c->be != B_NOOP && r == 0) {
		Conn *k = c->conn;
		bool avail = k->replies.size() > c->matched && k->replies[c->matched].end <= k->rcvd;
		if (!avail || k->replies[c->matched].op != S_SEAT_CLOSED) violation("C18 C19", "success-without-reply", "close succeeds but the daemon did not confirm");
	}
	if (r > 0) violation("C18", "close-result", "closing the seat returns %d", r);
	if (r < 0 && err <= 0)
		violation(c->be == B_LOGIND ? "C25" : c->be == B_NOOP ? "C27" : "C19 C18", "failure-without-errno", "closing the seat fails but errno is %d", err);
	if (c->conn && c->be != B_LOGIND && c->be != B_NOOP && r < 0 && c->p->nfaults == q.faults && !q.broken && !c->broken && !c->maybe &&
		!server_gone(c) && !q.peer_gone && !bad_seen(c)) {
		Conn *k = c->conn;
		bool avail = k->replies.size() > c->matched && k->replies[c->matched].end <= k->rcvd;
		if (avail && k->replies[c->matched].op == S_SEAT_CLOSED) violation("C18", "failed-after-success", "closing the seat fails with %s although the daemon confirmed", strerror(err));
		else if (!avail && !(k->srv && k->srv->exited)) violation("C18", "failed-without-reply", "closing the seat fails with %s although the daemon did not reply yet", strerror(err));
	}
	if (c->be == B_LOGIND && ctl && logind().release_control != rc + 1 && bf == orc().bus_faults && !logind().died)
		violation("C25", "release-control", "closing the seat released control %d times", logind().release_control - rc);
	check_leak(c, "after closing the seat");
	// descriptors handed out belong to the application and are still open
	for (auto &d : c->devs) app_close_fd(c, d.second);
	c->devs.clear();
	c->dev_paths.clear();
	c->conn = nullptr;
	c->app_owe = false;
	return r;
}
static int app_get_fd(Cli *c) {
	errno = 0;
	int fd = L_libseat_get_fd(c->seat);
	int err = errno;
	bool dead = c->broken; // a call has failed for the loss of the connection
	const char *p = c->be == B_LOGIND ? "C25" : c->be == B_NOOP ? "C27" : "C19";
	if (fd < 0 && err <= 0) violation(p, "failure-without-errno", "asking for the descriptor fails but errno is %d", err);
	if (fd >= 0 && !fd_get(c->p, fd)) violation(p, "stale-descriptor", "libseat returns descriptor %d, which is closed%s", fd, dead ? ", for a dead connection" : "");
	return fd;
}
static void app_poll(Cli *c, u64 deadline, int ph) {
	if (!c->seat || c->broken) {
		wait_for(nullptr, 0, deadline, ph);
		return;
	}
	int fd = app_get_fd(c);
	File *f = fd_get(c->p, fd);
	if (!f) { // the connection is gone; a dispatch has to say so
		if (app_dispatch(c, c->seat, 0) >= 0 && c->be != B_LOGIND) c->bad_dispatch++;
		else if (c->be != B_LOGIND) c->broken = true; // every later call has to fail
		if (c->bad_dispatch > 8) c->broken = true;
		return;
	}
	wait_for(f, POLLIN, deadline, ph);
	if ((file_poll(f) & (POLLIN | POLLHUP | POLLERR)) && c->seat) {
		int r = app_dispatch(c, c->seat, 0);
		if (r < 0 && c->be == B_LOGIND && errno != EINTR) c->bad_dispatch++;
		if (c->bad_dispatch > 8) c->broken = true;
	}
}
// ------------------------------------------------------------------ logging
// A handler, like any other code of the application, may change errno. Formatting the message reads
// all its arguments.
static void log_handler(int via, enum libseat_log_level level, const char *fmt, va_list ap) {
	char b[4096];
	vsnprintf(b, sizeof b, fmt, ap);
	if (verbose) trace("  log%d| %d %s", via, (int)level, b);
	if (W->log_pass) {
		LogMsg m;
		m.pid = cur->pid, m.via = via, m.level = (int)level, m.text = b;
		m.want_level = cur->log_level, m.want_handler = cur->log_handler;
		W->logs.push_back(m);
	}
	errno = ELIBBAD;
}
static void log_a(enum libseat_log_level level, const char *fmt, va_list ap) { log_handler(1, level, fmt, ap); }
static void log_b(enum libseat_log_level level, const char *fmt, va_list ap) { log_handler(2, level, fmt, ap); }
// level < 0, handler < 0: left as it is
static void app_log(Cli *c, int level, int handler) {
	static const libseat_log_func H[] = {nullptr, log_a, log_b};
	if (level >= 0) c->p->log_level = level;
	if (handler >= 0) c->p->log_handler = handler;
	if (W->log_pass == 1) return; // everything is recorded, see app_main
	if (level >= 0) L_libseat_set_log_level((enum libseat_log_level)level);
	if (handler >= 0) L_libseat_set_log_handler(H[handler % 3]);
}
static void app_op(Cli *c, Op *o) {
	const std::string &v = o->verb;
	libseat *s = c->seat;
	if (v == "opennull") {
		libseat_seat_listener l = listener;
		long k = arg(o, 0);
		if (k & 1) l.enable_seat = nullptr;
		if (k & 2) l.disable_seat = nullptr;
		errno = 0;
		libseat *x = L_libseat_open_seat(k ? &l : nullptr, c);
		if (x || errno != EINVAL) violation("C27", "invalid-listener", "opening a seat without a complete listener yields %s", x ? "a seat" : strerror(errno));
	} else if (v == "open") {
		if (arg(o, 0)) wait_daemon(PH_MAIN);
		app_open(c);
	} else if (v == "opendev") app_open_dev(c, s, o->s.empty() ? dev_path(arg(o, 0)) : o->s);
	else if (v == "closedev") app_close_dev(c, s, (size_t)arg(o, 0), arg(o, 1, 1));
	else if (v == "closebad") {
		if (!s) return;
		Pre q = pre(c);
		int id = (int)arg(o, 0);
		for (auto &d : c->devs)
			if (d.first == id) return;
		if ((c->be == B_LOGIND || c->be == B_NOOP)) return;
		errno = 0;
		call_begin(c, "close_device");
		int r = L_libseat_close_device(s, id), err = errno;
		call_end(c, "close_device", r, err);
		post(c, q, "close_device", S_DEVICE_CLOSED, r >= 0, err, 0, -1, id < 0);
	} else if (v == "switch") app_switch(c, s, (int)arg(o, 0));
	else if (v == "ack") {
		if (c->app_owe) app_disable(c, s);
	} else if (v == "badack") app_disable(c, s);
	else if (v == "ackmode") c->ack = (int)arg(o, 0);
	else if (v == "dispatch") {
		long t = arg(o, 0);
		if (t < 0 && c->broken) return;
		app_dispatch(c, s, (int)t);
	} else if (v == "poll") {
		u64 dl = W->now + (u64)arg(o, 0, 100) * 1000;
		for (int i = 0; i < 40 && W->now < dl && G->phase == PH_MAIN; i++) app_poll(c, dl, PH_MAIN);
	} else if (v == "wait" || v == "pause") {
		wait_for(nullptr, 0, W->now + (u64)arg(o, 0, 100) * 1000, PH_MAIN);
		sim_sched_yield();
	} else if (v == "waitvt") wait_vt((int)arg(o, 0), PH_MAIN);
	else if (v == "dropfd") {
		if (!c->devs.empty()) {
			auto d = c->devs[(size_t)arg(o, 0) % c->devs.size()];
			if (c->be != B_LOGIND && c->be != B_NOOP) app_close_fd(c, d.second);
		}
	} else if (v == "fill") { // use up descriptors
		for (long i = 0; i < arg(o, 0, 1); i++) {
			int fd = sim_open("/dev/null", O_RDWR);
			if (fd >= 0) orc().app_fds[{c->pid, fd}] = true;
		}
	} else if (v == "close") app_close(c);
	else if (v == "log") app_log(c, (int)arg(o, 0, -1), (int)arg(o, 1, -1) % 3);
	else if (v == "die") proc_exit(0);
}
static int app_main(Cli *c) {
	if (W->log_pass == 1) {
		L_libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
		L_libseat_set_log_handler(log_a);
	}
	{
		char k[32];
		snprintf(k, sizeof k, "llev%d", c->actor);
		int lv = (int)W->plan->get(k, -1);
		snprintf(k, sizeof k, "lhnd%d", c->actor);
		app_log(c, lv, (int)W->plan->get(k, -1));
	}
	{
		char k[32];
		snprintf(k, sizeof k, "mask%d", c->actor);
		c->p->sigrun |= blocked_signals((int)W->plan->get(k, 0)); // as an event loop that reads them from a signalfd
	}
	for (auto o : c->ops) {
		if (G->phase > PH_MAIN) break;
		app_op(c, o);
	}
	c->ops_done = true;
	while (G->phase < PH_END) {
		int ph = G->phase;
		if (G->phase >= PH_HEAL) c->ack = 0;
		if (c->app_owe && c->ack == 0 && c->seat && !c->broken) app_disable(c, c->seat);
		app_poll(c, ~0ull, ph);
		sim_sched_yield();
	}
	if (c->broken && c->seat) { // every call has to fail from now on
		app_disable(c, c->seat);
		app_open_dev(c, c->seat, dev_path(1));
		app_switch(c, c->seat, 1);
		app_dispatch(c, c->seat, 0);
	}
	if (c->end <= 1) {
		app_close(c);
		if (c->end == 1) { // a second life
			app_open(c);
			app_close(c);
		}
	}
	return 0;
}
bool app_may_wait(Cli *c) {
	if (c->be == B_LOGIND || c->be == B_NOOP) return true;
	return c->conn && !peer_lost(c) && !bad_received(c) && !c->broken;
}
// Called while the world is quiescent and nothing is injected.
void app_checks_quiescent() {
	for (auto c : G->clis) {
		if (c->cls != CLS_APP || c->p->pid != c->pid || c->p->st == P_DEAD || c->p->st == P_ZOMBIE || c->p->stopped) continue;
		if (c->p->in_call && strcmp(c->p->in_call, "dispatch") != 0)
			violation(peer_lost(c) || bad_received(c) ? "C19" : "C18 C19", "call-hangs", "%s blocks for ever", c->p->in_call);
		else if (c->p->in_call && (peer_lost(c) || bad_received(c)))
			violation("C19", "call-hangs", "dispatch blocks for ever although the daemon is gone");
		if (!c->seat || c->broken || c->maybe) continue;
		if (c->conn && c->be != B_LOGIND && c->be != B_NOOP && !peer_lost(c) && !bad_received(c)) {
			Conn *k = c->conn;
			size_t sent = 0;
			while (sent < k->evs.size() && k->evs[sent].end <= k->sent) sent++;
			if (c->evs.size() < sent) {
				bool rd = k->rcvd >= k->evs[c->evs.size()].end;
				violation(rd ? "C17" : "C17 C16", "event-undelivered", "the application polls but event %zu of %zu (%c) is not delivered%s", c->evs.size() + 1, sent, k->evs[c->evs.size()].k, rd ? " and its descriptor is not readable" : "");
			}
		}
		if (c->be == B_LOGIND && c->first_dispatched && orc().bus_faults == c->bus_faults_at_open) {
			if (logind_queued()) violation("C25 C24", "bus-data-stuck", "%zu bus messages are queued but the application is not woken", logind_queued());
			else if (!logind().pausing || true) {
				bool on = !c->evs.empty() && c->evs.back() == 'E';
				if (on != logind().active) violation("C24", "not-converged", "the session is %s but the last event was %s", logind().active ? "active" : "inactive", on ? "enable" : "disable");
			}
			for (auto &d : logind().dev)
				if (d.second.pend) violation("C24", "pause-unanswered", "the pause of %d:%d is not acknowledged", d.first.first, d.first.second);
		}
	}
	// built-in helpers do not outlive their seats
	for (auto p : W->procs) {
		if (!p->is_builtin || p->st == P_DEAD || p->st == P_ZOMBIE) continue;
		Cli *owner = nullptr;
		for (auto c : G->clis)
			if (c->pid == p->ppid && c->p->st != P_DEAD && c->p->st != P_ZOMBIE) owner = c;
		if (!owner) violation("C23", "helper-left", "the built-in daemon survives its application");
		else if (!owner->seat) violation("C23", "helper-left", "the built-in daemon survives its seat");
	}
}
Cli *spawn_client(int actor) {
	Cli *c = new Cli;
	char k[32], nm[32];
	auto cf = [&](const char *n, long d) {
		snprintf(k, sizeof k, "%s%d", n, actor);
		return W->plan->get(k, d);
	};
	c->actor = actor;
	c->cls = (Cls)cf("cls", CLS_RAW);
	c->ack = (int)cf("ack", 0);
	c->end = (int)cf("end", 0);
	c->be = c->be_conf = (Backend)cf("be", B_SEATD);
	c->reopen_in_enable = cf("reopen", 0);
	c->ops = ops_of(actor);
	G->clis.push_back(c);
	snprintf(nm, sizeof nm, "%s%d", c->cls == CLS_APP ? "app" : "cli", actor);
	Proc *p = proc_new(nm, actor, c->cls == CLS_APP ? IMG_L : IMG_NONE, nullptr);
	p->entry = [c]() { return c->cls == CLS_APP ? app_main(c) : raw_main(c); };
	p->ppid = 1;
	c->p = p;
	c->pid = p->pid;
	if (c->cls == CLS_APP) {
		p->faultable = true;
		p->fd_limit = (int)cf("fdl", 256);
		static const char *names[] = {"seatd", "builtin", "logind", "noop"};
		if (c->be < B_AUTO) p->env.push_back({"LIBSEAT_BACKEND", names[c->be]});
		static const char *bad[] = {"", "bogus", "seat", "seatdd", "Noop"};
		if (c->be > B_AUTO) p->env.push_back({"LIBSEAT_BACKEND", bad[cf("badbe", 0) % 5]});
		long xs = W->plan->get("xsock");
		if (xs) p->env.push_back({"SEATD_SOCK", xsock_path((int)xs)});
		if (c->be == B_BUILTIN || W->plan->get("vtenv", 0)) p->env.push_back({"SEATD_VTBOUND", W->plan->get("vt", 1) ? "1" : "0"});
		long xi = W->plan->get("xdgid");
		if (xi) p->env.push_back({"XDG_SESSION_ID", xi == 1 ? "c1" : "c99"});
		if (W->plan->get("xdgtype")) p->env.push_back({"XDG_SESSION_TYPE", "wayland"});
		if (cf("uid", 0)) p->uid = p->euid = (int)cf("uid", 0), p->gid = p->egid = p->suid = p->sgid = p->uid;
	}
	return c;
}

// ------------------------------------------------------------------ environment
static Cli *cli_of(long actor) {
	for (auto c : G->clis)
		if (c->actor == actor) return c;
	return nullptr;
}
static Proc *proc_of(long actor) {
	if (actor == 1) return G->daemon;
	if (actor == 3) return G->fake;
	Cli *c = cli_of(actor);
	if (c) return c->p;
	if (actor >= 1000) { // built-in helper of an application
		Cli *o = cli_of(actor - 1000);
		if (o)
			for (auto p : W->procs)
				if (p->ppid == o->pid && p->is_builtin && p->st != P_DEAD && p->st != P_ZOMBIE) return p;
	}
	return nullptr;
}
static void relink(const std::string &path, const std::string &target) {
	node_new(path, N_LINK, 0777, 0, 0)->target = target;
	fs_changed();
}
static void env_op(Op *o) {
	const std::string &v = o->verb;
	if (v == "vt") {
		G->count["env.vt"]++;
		vt_set_console((int)arg(o, 0, 1));
	} else if (v == "sleep") {
		wait_for(nullptr, 0, W->now + (u64)arg(o, 0, 10) * 1000, PH_MAIN);
		sim_sched_yield();
	} else if (v == "kill") {
		Proc *p = proc_of(arg(o, 0));
		if (!p || p == cur || p->st == P_ZOMBIE || p->st == P_DEAD) return;
		int sig = (int)arg(o, 1, SIGKILL);
		G->count["env.kill"]++;
		if (p->is_daemon && p->act[sig].h == SIG_DFL && sig != SIGKILL) return; // not up yet
		trace("env: signal %d for %s", sig, p->name.c_str());
		post_signal(p, sig);
	} else if (v == "stop") {
		Proc *p = proc_of(arg(o, 0));
		if (p && p->st != P_ZOMBIE && p->st != P_DEAD) {
			p->stopped = true;
			if (Cli *c = cli_of(arg(o, 0))) c->stopped_once = true;
			G->count["env.stop"]++;
		}
	} else if (v == "cont") {
		Proc *p = proc_of(arg(o, 0));
		if (p) p->stopped = false;
	} else if (v == "unplug") {
		Node *n = fs_lookup(dev_path(arg(o, 0)));
		if (n && n->type >= N_EVDEV && n->type <= N_HIDRAW) {
			n->exist = false;
			fs_changed();
			G->count["env.unplug"]++;
		}
	} else if (v == "plug") {
		std::string p = dev_path(arg(o, 0));
		Node *n = fs_lookup(p);
		if (n && !n->exist) {
			Node *m = node_new(p, n->type, n->mode, n->uid, n->gid);
			m->minor = n->minor;
			fs_changed();
		}
	} else if (v == "swap") { // the path becomes a link to something else
		std::string p = dev_path(arg(o, 0));
		Node *n = fs_lookup(p);
		if (n && n->type >= N_EVDEV && n->type <= N_HIDRAW) {
			int minor = n->minor, type = n->type;
			relink(p, o->s.empty() ? "/etc/shadow" : o->s);
			G->count["env.swap"]++;
			wait_for(nullptr, 0, W->now + (u64)arg(o, 1, 10) * 1000, PH_MAIN);
			sim_sched_yield();
			node_new(p, (NType)type, 0600, 0, 0)->minor = minor;
			fs_changed();
		}
	} else if (v == "lactive") logind_set_active(arg(o, 0), (int)arg(o, 1));
	else if (v == "lgone") logind_gone((int)arg(o, 0));
	else if (v == "lnoise") logind_noise((int)arg(o, 0));
	else if (v == "ldie") logind_bus_die();
	else if (v == "ltimeout") logind_finish_pause(true);
	else if (v == "waitdaemon") wait_daemon(PH_MAIN);
	else if (v == "faults") W->faults_on = arg(o, 0);
}
Proc *spawn_env() {
	Proc *p = proc_new("env", 2, IMG_NONE, nullptr);
	p->ppid = 1;
	auto ops = ops_of(2);
	p->entry = [ops]() {
		for (auto o : ops) {
			if (G->phase > PH_MAIN) break;
			env_op(o);
			sim_sched_yield();
		}
		return 0;
	};
	return p;
}

// ------------------------------------------------------------------ scripted daemon
struct Fake {
	Conn *c = nullptr;
	int lfd = -1, fd = -1;
	std::string in;
	std::deque<std::pair<int, std::string>> reqs;
	int nextid = 1, sess = 1;
	bool closed = false;
	char last = 'D';
};
static void fake_send(Fake &f, const std::string &s, const std::vector<int> &fds, size_t frag, long gap) {
	size_t o = 0;
	while (o < s.size() && !f.closed && f.fd >= 0) {
		size_t k = frag ? std::min(frag, s.size() - o) : s.size() - o;
		struct iovec v = {(void *)(s.data() + o), k};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		char ctl[CMSG_SPACE(8 * sizeof(int))];
		if (o == 0 && !fds.empty()) {
			memset(ctl, 0, sizeof ctl);
			m.msg_control = ctl;
			m.msg_controllen = CMSG_SPACE(fds.size() * sizeof(int));
			struct cmsghdr *h = CMSG_FIRSTHDR(&m);
			h->cmsg_level = SOL_SOCKET;
			h->cmsg_type = SCM_RIGHTS;
			h->cmsg_len = CMSG_LEN(fds.size() * sizeof(int));
			memcpy(CMSG_DATA(h), fds.data(), fds.size() * sizeof(int));
			m.msg_controllen = h->cmsg_len;
		}
		ssize_t r = sim_sendmsg(f.fd, &m, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (r < 0) {
			if (errno != EAGAIN) {
				f.closed = true;
				return;
			}
			wait_for(fd_get(cur, f.fd), POLLOUT, ~0ull, PH_HEAL);
			if (G->phase >= PH_TOUR) return;
			continue;
		}
		o += (size_t)r;
		if (o < s.size() && gap) {
			wait_for(nullptr, 0, W->now + (u64)gap * 1000, PH_MAIN);
			sim_sched_yield();
		}
	}
}
// Bookkeeping of what is about to be sent; offsets are those of the stream.
static void note(Fake &f, size_t &at, std::string &out, int op, const std::string &body, int err = 0, int id = 0, u32 file = 0) {
	std::string s = frame(op, body);
	out += s;
	at += s.size();
	Conn &c = *f.c;
	if (op == S_ENABLE_SEAT || op == S_DISABLE_SEAT) c.evs.push_back({op == S_ENABLE_SEAT ? 'E' : 'D', at});
	else if (op == S_PONG) c.npong++;
	else {
		Reply r;
		r.op = op;
		r.err = err;
		r.id = id;
		r.file = file;
		r.end = at;
		c.replies.push_back(r);
	}
}
static void fake_close(Fake &f) {
	if (f.fd >= 0) sim_close(f.fd);
	f.fd = -1;
	f.closed = true;
	if (f.c) f.c->closed = true;
}
static bool fake_accept(Fake &f, int ph) {
	while (G->phase <= ph) {
		wait_for(fd_get(cur, f.lfd), POLLIN, ~0ull, ph);
		if (G->phase > ph) return false;
		int fd = sim_accept4(f.lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
		if (fd < 0) continue;
		f.fd = fd;
		f.closed = false;
		f.in.clear();
		f.reqs.clear();
		f.last = 'D';
		Srv *s = orc().srv_of(cur);
		s->fake = true;
		f.c = orc().conn_new(s, fd_get(cur, fd), false);
		f.c->fake = true;
		return true;
	}
	return false;
}
// Reads requests; waits for one if asked to.
static bool fake_recv(Fake &f, bool wait, u64 dl, int ph) {
	static char b[4096];
	while (!f.closed && G->phase <= ph) {
		if (f.reqs.size()) return true;
		ssize_t r = sim_recv(f.fd, b, sizeof b, MSG_DONTWAIT);
		if (r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR)) {
			fake_close(f);
			return false;
		}
		if (r > 0) {
			f.in.append(b, (size_t)r);
			while (f.in.size() >= 4) {
				uint16_t h[2];
				memcpy(h, f.in.data(), 4);
				if (f.in.size() < 4u + h[1]) break;
				f.reqs.push_back({h[0], f.in.substr(4, h[1])});
				f.in.erase(0, 4 + h[1]);
			}
			continue;
		}
		if (!wait || W->now >= dl) return false;
		wait_for(fd_get(cur, f.fd), POLLIN, dl, ph);
	}
	return false;
}
static void put_events(Fake &f, size_t &at, std::string &out, long n) {
	for (long i = 0; i < n; i++) {
		f.last = f.last == 'D' ? 'E' : 'D';
		note(f, at, out, f.last == 'E' ? S_ENABLE_SEAT : S_DISABLE_SEAT, "");
	}
}
static void fake_answer(Fake &f, int mode, int err, long before, long after, size_t frag, long gap) {
	auto rq = f.reqs.front();
	f.reqs.pop_front();
	std::string out;
	std::vector<int> fds;
	size_t at = f.c->attempted;
	int pongs = 0;
	while (rq.first == C_PING) { // pings are answered in passing
		note(f, at, out, S_PONG, "");
		pongs++;
		if (f.reqs.empty()) break;
		rq = f.reqs.front();
		f.reqs.pop_front();
	}
	bool open = rq.first == C_OPEN_SEAT;
	put_events(f, at, out, before);
	if (rq.first != C_PING) {
		int sfd = -1;
		if (mode == 3 || (mode == 1 && rq.first != C_OPEN_SEAT)) {
			std::string b((char *)&err, 4);
			note(f, at, out, S_ERROR, b, err);
		} else switch (rq.first) {
			case C_OPEN_SEAT: {
				static const char *names[] = {"seat0", "s", "seat-with-a-rather-long-name-0123456789012345678901234567890123"};
				std::string n = names[mode % 3], b;
				uint16_t l = (uint16_t)(n.size() + 1);
				b.append((char *)&l, 2);
				b += n;
				b.push_back(0);
				note(f, at, out, S_SEAT_OPENED, b);
				break;
			}
			case C_CLOSE_SEAT: note(f, at, out, S_SEAT_CLOSED, ""); break;
			case C_OPEN_DEVICE: {
				sfd = sim_open("/dev/null", O_RDWR | O_CLOEXEC);
				int id = f.nextid++;
				if (mode == 2) id += 1000;
				note(f, at, out, S_DEVICE_OPENED, std::string((char *)&id, 4), 0, id, fd_get(cur, sfd) ? fd_get(cur, sfd)->id : 0);
				fds.push_back(sfd);
				break;
			}
			case C_CLOSE_DEVICE: note(f, at, out, S_DEVICE_CLOSED, ""); break;
			case C_SWITCH_SESSION: note(f, at, out, S_SESSION_SWITCHED, ""); break;
			case C_DISABLE_SEAT: note(f, at, out, S_SEAT_DISABLED, ""); break;
			}
	}
	(void)open;
	put_events(f, at, out, after);
	f.c->attempted += out.size();
	f.c->sent += out.size();
	fake_send(f, out, fds, frag, gap);
	for (int x : fds) sim_close(x);
}
static void fake_garbage(Fake &f, int kind) {
	// bytes that are not a valid message at this point
	std::string s;
	int v = 5;
	auto opened = [](uint16_t len, const std::string &name) { return frame(S_SEAT_OPENED, std::string((char *)&len, 2) + name); };
	int rq = f.reqs.empty() ? 0 : f.reqs.front().first;
	switch (kind % 14) {
	case 0: s = frame(0x1234, ""); break;
	case 1: s = frame(0, std::string(4, 0)); break;
	case 2: s = frame(0x800a, std::string(8, 'x')); break;
	case 3: s = frame(0x7fff, std::string((char *)&v, 4)); break;
	case 4: s = frame(S_ERROR, "ab"); break;                  // wrong size
	case 5: s = frame(S_DEVICE_OPENED, std::string(2, 1)); break;
	case 6: s = std::string("\x0b\x80\xff\xff", 4) + std::string(300, 'z'); break; // never complete
	case 7: s = frame(C_OPEN_SEAT, ""); break;
	case 8: // the reply that is expected, but of another size
		if (rq == C_CLOSE_SEAT) s = frame(S_SEAT_CLOSED, "zz");
		else if (rq == C_CLOSE_DEVICE) s = frame(S_DEVICE_CLOSED, std::string((char *)&v, 4));
		else if (rq == C_SWITCH_SESSION) s = frame(S_SESSION_SWITCHED, std::string((char *)&v, 4));
		else if (rq == C_DISABLE_SEAT) s = frame(S_SEAT_DISABLED, "z");
		else if (rq == C_OPEN_DEVICE) s = frame(S_DEVICE_OPENED, std::string(6, 1));
		else s = frame(S_SEAT_OPENED, "");
		break;
	case 9: s = opened(4, std::string("seat0", 6)); break;    // more follows than the name
	case 10: s = opened(9, std::string("seat0", 6)); break;   // less
	case 11: s = opened(6, std::string("se\0t0", 6)); break;
	case 12: s = opened(70, std::string(69, 'n') + std::string(1, '\0')); break; // too long
	case 13: s = frame(S_ERROR, std::string(5, 1)); break;
	}
	if (kind % 14 >= 9 && kind % 14 <= 12 && rq != C_OPEN_SEAT) s = frame(0x1234, "");
	f.c->wire_bad = true;
	f.c->bad_at = f.c->attempted;
	f.c->bad_end = f.c->attempted + s.size();
	if (kind % 14 == 6) f.c->bad_end = f.c->attempted + 256;
	f.c->attempted += s.size();
	f.c->sent += s.size();
	fake_send(f, s, {}, 0, 0);
}
static int fake_main() {
	Fake f;
	auto ops = ops_of(3);
	f.lfd = sim_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	File *l = fd_get(cur, f.lfd);
	Node *n = node_new(G->sock, N_SOCK, 0777, 0, 0);
	n->listener = l;
	l->node = n;
	l->path = G->sock;
	l->listening = true;
	l->backlog = 16;
	size_t i = 0;
	if (fake_accept(f, PH_HEAL)) {
		for (; i < ops.size() && !f.closed && G->phase == PH_MAIN; i++) {
			Op *o = ops[i];
			if (o->verb == "reply") {
				if (!fake_recv(f, true, ~0ull, PH_MAIN)) break;
				fake_answer(f, (int)arg(o, 0), (int)arg(o, 1, EIO), arg(o, 2), arg(o, 3), (size_t)arg(o, 4), arg(o, 5));
			} else if (o->verb == "event") {
				std::string out;
				size_t at = f.c->attempted;
				put_events(f, at, out, arg(o, 0, 1));
				f.c->attempted += out.size();
				f.c->sent += out.size();
				fake_send(f, out, {}, (size_t)arg(o, 1), arg(o, 2));
			} else if (o->verb == "sleep") {
				wait_for(nullptr, 0, W->now + (u64)arg(o, 0, 10) * 1000, PH_MAIN);
				sim_sched_yield();
			} else if (o->verb == "garbage") {
				if (arg(o, 1) && !fake_recv(f, true, ~0ull, PH_MAIN)) break;
				fake_garbage(f, (int)arg(o, 0));
				G->fake_bad = true;
			} else if (o->verb == "partial") { // a piece of a valid reply, then the end
				if (!fake_recv(f, true, ~0ull, PH_MAIN)) break;
				std::string s = frame(S_SEAT_OPENED, std::string("\6\0seat0\0", 8)).substr(0, (size_t)std::max(1l, std::min(11l, arg(o, 0, 1))));
				f.c->wire_bad = true;
				f.c->bad_at = f.c->attempted;
				f.c->bad_end = ~0ull >> 1;
				fake_send(f, s, {}, 0, 0);
				fake_close(f);
			} else if (o->verb == "close") {
				if (arg(o, 0) && !fake_recv(f, true, ~0ull, PH_MAIN)) break;
				fake_close(f);
			} else if (o->verb == "nofd") {
				// the descriptor is missing
				if (!fake_recv(f, true, ~0ull, PH_MAIN)) break;
				if (f.reqs.front().first == C_OPEN_DEVICE) {
					int id = 7;
					std::string s = frame(S_DEVICE_OPENED, std::string((char *)&id, 4));
					f.c->wire_bad = true;
					f.c->bad_at = f.c->attempted;
					f.c->bad_end = f.c->attempted + s.size();
					f.c->attempted += s.size();
					f.c->sent += s.size();
					f.reqs.pop_front();
					fake_send(f, s, {}, 0, 0);
				}
			}
		}
	}
	while (G->phase < PH_END) {
		int ph = G->phase;
		if (f.closed || f.fd < 0) {
			if (!fake_accept(f, ph)) continue;
		}
		if (f.c->wire_bad) { // nothing sensible to say any more
			static char b[256];
			wait_for(fd_get(cur, f.fd), POLLIN, ~0ull, ph);
			ssize_t r = sim_recv(f.fd, b, sizeof b, MSG_DONTWAIT);
			if (r == 0 || (r < 0 && errno != EAGAIN)) fake_close(f);
			continue;
		}
		if (fake_recv(f, true, ~0ull, ph)) fake_answer(f, W->plan->get("fakeopen") ? 3 : 0, EBUSY, 0, 0, 0, 0);
	}
	while (!f.closed && f.fd >= 0) { // until the client leaves
		if (fake_recv(f, true, W->now + 1000000000ull, PH_END)) fake_answer(f, W->plan->get("fakeopen") ? 3 : 0, EBUSY, 0, 0, 0, 0);
		else break;
	}
	fake_close(f);
	return 0;
}
Proc *spawn_fake() {
	Proc *p = proc_new("fake", 3, IMG_NONE, nullptr);
	p->ppid = 1;
	p->fd_limit = 4096;
	p->entry = fake_main;
	return p;
}
