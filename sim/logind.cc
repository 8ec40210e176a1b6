#include "logind.h"
#include "shim.h"
#include "oracle.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <systemd/sd-bus.h>
#include <sanitizer/asan_interface.h>

struct Val {
	char t;
	u32 u = 0;
	std::string s;
	std::vector<Val> kids;
	File *f = nullptr;
};
// signature of what a container holds
static std::string sig(const Val &v);
static std::string contents(const Val &v) {
	if (v.t == 'a') return v.s;
	std::string r;
	for (auto &k : v.kids) r += sig(k);
	return r;
}
static std::string sig(const Val &v) {
	if (v.t == 'a') return "a" + v.s;
	if (v.t == 'e') return "{" + contents(v) + "}";
	return std::string(1, v.t);
}
static Val vs(const char *s) { return {'s', 0, s, {}}; }
static Val vu(u32 u) { return {'u', u, "", {}}; }
static Val vb(bool b) { return {'b', b, "", {}}; }

struct Msg {
	bool error = false;
	std::string errname, errmsg;
	std::string iface, member; // signals and calls
	std::string path;          // calls
	int reply_to = 0;          // async replies
	std::vector<Val> body;
};
struct sd_bus_message {
	int refs;
	int fd; // descriptor it owns
	sd_bus *bus;
	Msg *m;
	std::vector<std::pair<std::vector<Val> *, size_t>> *cur;
	std::vector<char> *kinds;
	std::vector<char *> *strs;
	sd_bus_error err;
};
static const char *SESSION_PATH = "/org/freedesktop/login1/session/c1", *OTHER_PATH = "/org/freedesktop/login1/session/c2";
struct Match {
	std::string iface, member, path; // an empty path stands for any
	bool fits(const std::string &i, const std::string &m, const std::string &p) const { return iface == i && member == m && (path.empty() || path == p); }
	sd_bus_message_handler_t cb;
	void *ud;
	int id; // 0: floating
};
struct sd_bus_slot {
	int refs;
	sd_bus *bus;
	int id;
};
struct sd_bus {
	int refs;
	int fd;
	bool dead, closed;
	std::deque<Msg *> *sock, *rq;
	std::vector<Match> *matches;
	std::map<int, std::pair<sd_bus_message_handler_t, void *>> *async;
	int next_cookie, next_slot;
	int pid;
};
static LogindModel *lm;
static std::set<sd_bus_message *> live;
static std::set<sd_bus *> buses;
static std::map<File *, sd_bus *> by_file;
LogindModel &logind() { return *lm; }
bool logind_controls(int pid) {
	for (auto b : buses)
		if (lm->controller == b && b->pid == pid) return true;
	return false;
}
static void bus_delete(sd_bus *b) {
	for (auto m : *b->sock) delete m;
	for (auto m : *b->rq) delete m;
	delete b->sock;
	delete b->rq;
	delete b->matches;
	delete b->async;
	buses.erase(b);
	for (auto it = by_file.begin(); it != by_file.end();)
		if (it->second == b) it = by_file.erase(it);
		else ++it;
}
static void msg_delete(sd_bus_message *m) {
	for (char *s : *m->strs) free(s);
	delete m->strs;
	delete m->cur;
	delete m->kinds;
	delete m->m;
	live.erase(m);
}
void logind_reset() {
	while (!live.empty()) msg_delete(*live.begin());
	while (!buses.empty()) bus_delete(*buses.begin());
	by_file.clear();
	delete lm;
	lm = new LogindModel;
}
static void drop_controller() {
	lm->controller = nullptr;
	auto devs = lm->dev;
	lm->dev.clear();
	for (auto &d : devs)
		if (d.second.held) {
			d.second.held->type == F_DRM ? void(d.second.held->node->master == d.second.held ? d.second.held->node->master = nullptr : nullptr) : void(d.second.held->revoked = true);
			file_unref(d.second.held);
		}
	logind_finish_pause(true);
}
// A process died or closed its last descriptor on the bus.
void bus_release(File *f) {
	auto it = by_file.find(f);
	if (it == by_file.end()) return;
	sd_bus *b = it->second;
	by_file.erase(it);
	b->closed = true;
	if (lm->controller == b) drop_controller();
	Proc *p = proc_find(b->pid);
	if (!p || p->st == P_ZOMBIE || p->st == P_DEAD) {
		std::vector<sd_bus_message *> v;
		for (auto m : live)
			if (m->bus == b) v.push_back(m);
		for (auto m : v) msg_delete(m);
		bus_delete(b);
	}
}
short bus_poll(File *f) {
	auto it = by_file.find(f);
	if (it == by_file.end()) return POLLHUP;
	short r = POLLOUT;
	if (!it->second->sock->empty()) r |= POLLIN;
	if (it->second->dead) r |= POLLIN | POLLHUP;
	return r;
}
static bool matched(sd_bus *b, const std::string &i, const std::string &m, const std::string &p) {
	for (auto &x : *b->matches)
		if (x.fits(i, m, p)) return true;
	return false;
}
static void emit(const char *iface, const char *member, std::vector<Val> body, const char *path = SESSION_PATH) {
	for (auto b : buses) {
		if (b->dead || b->closed || !matched(b, iface, member, path)) continue;
		Msg *m = new Msg;
		m->path = path;
		m->iface = iface;
		m->member = member;
		m->body = body;
		b->sock->push_back(m);
		mixh(0x10610 + body.size());
	}
}
static const char *SESS = "org.freedesktop.login1.Session";
static const char *PROP = "org.freedesktop.DBus.Properties";
static void emit_active(int style) {
	Val arr{'a', 0, "{sv}", {}}, inv{'a', 0, "s", {}};
	auto entry = [](const char *k, Val v) {
		Val var{'v', 0, "", {v}};
		return Val{'e', 0, "", {vs(k), var}};
	};
	if (style & 4) arr.kids.push_back(entry("IdleHint", vb(false)));
	if (style & 1) inv.kids.push_back(vs("Active"));
	else arr.kids.push_back(entry("Active", vb(lm->active)));
	if (style & 2) arr.kids.push_back(entry("State", vs(lm->active ? "active" : "online")));
	if (style & 8) inv.kids.push_back(vs("LockedHint"));
	(lm->active ? lm->n_on : lm->n_off)++;
	emit(PROP, "PropertiesChanged", {vs(SESS), arr, inv});
}
static u32 pick(u32 n) { return decide(0, K_MISC, n, 1.0); }
void logind_noise(int k) {
	Val arr{'a', 0, "{sv}", {}}, inv{'a', 0, "s", {}};
	arr.kids.push_back(Val{'e', 0, "", {vs(k & 1 ? "Active" : "IdleHint"), Val{'v', 0, "", {vb(k & 2)}}}});
	const char *path = SESSION_PATH;
	if (k & 4) { // another session's state
		path = OTHER_PATH;
		if (k & 8) emit(SESS, "PauseDevice", {vu(226), vu(0), vs("pause")}, path);
		arr.kids.back().kids[0] = vs("Active");
		emit(PROP, "PropertiesChanged", {vs(SESS), arr, inv}, path);
	} else if (k & 1) emit(PROP, "PropertiesChanged", {vs("org.freedesktop.login1.Seat"), arr, inv});
	else emit(PROP, "PropertiesChanged", {vs(SESS), arr, inv});
}
void logind_finish_pause(bool timeout) {
	if (!lm->pausing) return;
	for (auto &d : lm->dev) {
		if (d.second.pend && !timeout) return;
		d.second.pend = false;
	}
	lm->pausing = false;
	lm->active = false;
	trace("logind: session inactive");
	emit_active(pick(16));
}
static void dev_set(LDev &d, bool on) {
	if (!d.held) return;
	if (d.held->type == F_DRM) {
		if (on && !d.held->node->master) d.held->node->master = d.held;
		if (!on && d.held->node->master == d.held) d.held->node->master = nullptr;
	} else if (!on) d.held->revoked = true;
}
void logind_set_active(bool on, int how) {
	if (!on) {
		if (!lm->active || lm->pausing) return;
		for (auto &d : lm->dev) {
			if (d.second.paused) continue;
			d.second.paused = true;
			bool force = how == 1 || (how == 2 && d.second.held && d.second.held->type != F_DRM);
			const char *type = force ? "force" : "pause";
			if (force) dev_set(d.second, false);
			else d.second.pend = true, lm->pauses[d.first].first++, lm->n_off++;
			emit(SESS, "PauseDevice", {vu(d.first.first), vu(d.first.second), vs(type)});
		}
		lm->pausing = true;
		logind_finish_pause(how == 1);
		return;
	}
	if (lm->pausing) logind_finish_pause(true);
	if (lm->active) return;
	lm->active = true;
	trace("logind: session active");
	for (auto &d : lm->dev) {
		d.second.paused = false;
		dev_set(d.second, true);
	}
	emit_active(pick(16));
}
void logind_gone(int which) {
	if (lm->dev.empty()) return;
	auto it = lm->dev.begin();
	std::advance(it, which % lm->dev.size());
	emit(SESS, "PauseDevice", {vu(it->first.first), vu(it->first.second), vs("gone")});
	it->second.pend = false;
	File *f = it->second.held;
	lm->dev.erase(it);
	if (f) file_unref(f);
	logind_finish_pause(false);
}
void logind_bus_die() {
	lm->died = true;
	for (auto b : buses) b->dead = true;
	drop_controller();
}
bool logind_idle() { return logind_queued() == 0; }
size_t logind_queued() {
	size_t n = 0;
	for (auto b : buses)
		if (!b->closed && !b->dead) n += b->sock->size() + b->rq->size();
	return n;
}

static sd_bus_message *msg_new(sd_bus *b, Msg *m) {
	sd_bus_message *x = (sd_bus_message *)malloc(sizeof *x);
	W->heap[x] = {cur->pid, sizeof *x};
	cur->allocs++;
	x->refs = 1;
	x->fd = -1;
	x->bus = b;
	x->m = m;
	x->cur = new std::vector<std::pair<std::vector<Val> *, size_t>>;
	x->cur->push_back({&m->body, 0});
	x->kinds = new std::vector<char>;
	x->strs = new std::vector<char *>;
	x->err = {nullptr, nullptr, 0};
	live.insert(x);
	return x;
}
static bool msg_ok(sd_bus_message *m, const char *fn) {
	if (live.count(m)) return true;
	violation("C25 C24", "bus-message-after-release", "%s on a released bus message", fn);
	return false;
}
static bool bus_ok(sd_bus *b, const char *fn) {
	if (buses.count(b)) return true;
	violation("C25 C24", "bus-after-release", "%s on a released bus", fn);
	return false;
}
static void write_checked(void *p, size_t n, const void *src, const char *fn) {
	if (__asan_region_is_poisoned(p, n)) {
		violation("C25 C24", "bus-write-out-of-bounds", "%s makes sd-bus write %zu bytes outside of the target object", fn, n);
		return;
	}
	memcpy(p, src, n);
}
long sim_bus_enter(void);
void sim_bus_exit(void);
template <class F> static int buscall(const char *what, F f) {
	int e = errno;
	sim_bus_enter();
	int r = f();
	trace("bus %s = %d", what, r);
	mixh(0xb05 ^ (u32)r);
	errno = e;
	sim_bus_exit();
	return r;
}
static void set_error(sd_bus_error *e, int r) {
	if (e) *e = SD_BUS_ERROR_MAKE_CONST("org.sim.Error", strerror(-r));
}
// Every synchronous call reads what is in the socket; unrelated messages are queued.
static void slurp(sd_bus *b) {
	while (!b->sock->empty()) {
		b->rq->push_back(b->sock->front());
		b->sock->pop_front();
	}
	if (!b->rq->empty()) W->probe["bus.queued_behind_call"]++;
}
static std::string find_dev(int maj, int min) {
	for (auto &n : W->fs) {
		NType t = n.second->type;
		if ((t == N_EVDEV && maj == 13 && min == 64 + n.second->minor) || ((t == N_DRM || t == N_RENDER) && maj == 226 && min == n.second->minor)) return n.first;
	}
	return "";
}
static int do_call(sd_bus *b, const std::string &path, const std::string &iface, const std::string &member, std::vector<Val> args, Msg *rep) {
	if (b->dead) return -ECONNRESET;
	u32 e = faultn(K_BUS, 4);
	if (e) {
		static const int er[] = {0, -ETIMEDOUT, -EACCES, -EIO};
		return er[e];
	}
	if (W->mon) orc().on_bus(member.c_str(), false);
	if (iface == "org.freedesktop.login1.Manager" && member == "GetSession") {
		if (args[0].s != "c1") return -ENXIO;
		rep->body.push_back({'o', 0, SESSION_PATH, {}});
		return 0;
	}
	if (iface == "org.freedesktop.login1.Manager" && member == "GetSeat") {
		if (args[0].s != "seat0") return -ENXIO;
		rep->body.push_back({'o', 0, "/org/freedesktop/login1/seat/seat0", {}});
		return 0;
	}
	if (iface == "org.freedesktop.login1.Seat" && member == "SwitchTo") {
		if (path != "/org/freedesktop/login1/seat/seat0") return -ENXIO;
		lm->n_switch++;
		lm->switched_to = (int)args[0].u;
		orc().on_logind_switch((int)args[0].u);
		return args[0].u == 0 || args[0].u > 12 ? -EINVAL : 0;
	}
	if (iface != SESS || path != SESSION_PATH) return -EBADR;
	if (member == "TakeControl") {
		lm->take_control++;
		if (lm->controller && lm->controller != b) return -EBUSY;
		lm->controller = b;
		return 0;
	}
	if (member == "ReleaseControl") {
		lm->release_control++;
		if (lm->controller != b) return -EINVAL;
		drop_controller();
		return 0;
	}
	if (lm->controller != b) return -EINVAL;
	if (member == "SetType") return 0;
	auto key = args.size() >= 2 ? std::make_pair((int)args[0].u, (int)args[1].u) : std::make_pair(-1, -1);
	if (member == "TakeDevice") {
		lm->n_take++;
		std::string p = find_dev(key.first, key.second);
		orc().on_logind_take(key.first, key.second);
		if (p.empty()) return -ENODEV;
		if (lm->dev.count(key)) return -EBUSY;
		Node *n = fs_lookup(p);
		if (!n->exist) return -ENODEV;
		File *f = file_new(n->type == N_EVDEV ? F_EVDEV : F_DRM);
		f->flags = O_RDWR | O_NONBLOCK;
		f->path = p;
		f->node = n;
		n->opens++;
		LDev d;
		d.held = f;
		d.path = p;
		d.paused = !lm->active || lm->pausing;
		if (n->type == N_DRM && !d.paused && !n->master) n->master = f;
		if (d.paused && n->type == N_EVDEV) f->revoked = true;
		lm->dev[key] = d;
		Val h{'h', 0, "", {}};
		h.f = f;
		file_ref(f);
		rep->body.push_back(h);
		rep->body.push_back(vb(d.paused));
		return 0;
	}
	if (member == "ReleaseDevice") {
		lm->n_release++;
		orc().on_logind_release(key.first, key.second);
		auto it = lm->dev.find(key);
		if (it == lm->dev.end()) return -ENODEV;
		dev_set(it->second, false);
		File *f = it->second.held;
		lm->dev.erase(it);
		if (f) file_unref(f);
		logind_finish_pause(false);
		return 0;
	}
	if (member == "PauseDeviceComplete") {
		lm->n_complete++;
		auto it = lm->dev.find(key);
		auto &pa = lm->pauses[key];
		orc().on_logind_complete(key.first, key.second, ++pa.second <= pa.first);
		if (it == lm->dev.end() || !it->second.pend) return -ENODEV;
		it->second.pend = false;
		dev_set(it->second, false);
		logind_finish_pause(false);
		return 0;
	}
	return -EBADR;
}
static std::vector<Val> parse_args(const char *types, va_list ap) {
	std::vector<Val> v;
	for (const char *t = types ? types : ""; *t; t++) {
		if (*t == 's' || *t == 'o') {
			const char *s = va_arg(ap, const char *);
			v.push_back({*t, 0, s ? s : "", {}});
		} else v.push_back({*t, va_arg(ap, u32), "", {}});
	}
	return v;
}

extern "C" {
int sim_sd_bus_default_system(sd_bus **ret) {
	orc().on_bus_use(cur);
	return buscall("default_system", [&]() -> int {
		if (!lm->present) return -ENOENT;
		u32 e = faultn(K_BUS, 3);
		if (e) return e == 1 ? -ENOENT : -ENOMEM;
		File *f = file_new(F_BUS);
		int fd = fd_install(cur, f, true);
		if (fd < 0) {
			file_unref(f);
			return fd;
		}
		sd_bus *b = (sd_bus *)malloc(sizeof *b);
		W->heap[b] = {cur->pid, sizeof *b};
		cur->allocs++;
		b->refs = 1;
		b->fd = fd;
		b->dead = b->closed = false;
		b->sock = new std::deque<Msg *>;
		b->rq = new std::deque<Msg *>;
		b->matches = new std::vector<Match>;
		b->async = new std::map<int, std::pair<sd_bus_message_handler_t, void *>>;
		b->next_cookie = 1;
		b->next_slot = 0;
		b->pid = cur->pid;
		buses.insert(b);
		by_file[f] = b;
		*ret = b;
		return 1;
	});
}
sd_bus *sim_sd_bus_unref(sd_bus *b) {
	if (!b) return nullptr;
	if (!bus_ok(b, "sd_bus_unref")) return nullptr;
	if (--b->refs) return nullptr;
	int fd = b->fd;
	bus_delete(b);
	if (lm->controller == b) drop_controller();
	sim_close(fd);
	sim_free(b);
	return nullptr;
}
int sim_sd_bus_get_fd(sd_bus *b) {
	if (!bus_ok(b, "sd_bus_get_fd")) return -EINVAL;
	return b->fd;
}
int sim_sd_bus_get_n_queued_read(sd_bus *b, uint64_t *n) {
	if (!bus_ok(b, "get_n_queued_read")) return -EINVAL;
	if (b->dead) return -ENOTCONN;
	*n = b->rq->size();
	return 0;
}
int sim_sd_bus_get_n_queued_write(sd_bus *b, uint64_t *n) {
	if (!bus_ok(b, "get_n_queued_write")) return -EINVAL;
	if (b->dead) return -ENOTCONN;
	*n = 0;
	return 0;
}
void sim_sd_bus_error_free(sd_bus_error *e) {
	if (e) *e = SD_BUS_ERROR_NULL;
}
static int call(sd_bus *b, const std::string &p, const char *iface, const char *member, const std::vector<Val> &args, sd_bus_error *err, sd_bus_message **reply) {
	return buscall(member, [&]() -> int {
		Msg *rep = new Msg;
		int q = do_call(b, p, iface, member, args, rep);
		if (q < 0) {
			delete rep;
			if (!b->dead) slurp(b);
			set_error(err, q);
			return q;
		}
		slurp(b);
		if (reply) {
			sd_bus_message *m = msg_new(b, rep);
			for (auto &v : rep->body)
				if (v.f) {
					int fd = fd_install(cur, v.f, true);
					if (fd < 0) file_unref(v.f);
					m->fd = fd;
					v.u = (u32)fd;
				}
			*reply = m;
		} else {
			for (auto &v : rep->body)
				if (v.f) file_unref(v.f);
			delete rep;
		}
		return 1;
	});
}
static int call_async(sd_bus *b, const char *path, const char *iface, const char *member, const std::vector<Val> &args, sd_bus_message_handler_t cb, void *ud) {
	return buscall(member, [&]() -> int {
		if (b->dead) return -ENOTCONN;
		if (faultn(K_BUS, 2)) return -ENOBUFS;
		Msg *m = new Msg;
		m->iface = iface;
		if (strcmp(member, "Ping") != 0) {
			// carried out at once, the reply is on its way
			int q = do_call(b, path ? path : "", iface, member, args, m);
			if (q < 0) m->error = true;
			for (auto &v : m->body)
				if (v.f) file_unref(v.f), v.f = nullptr;
		}
		if (!cb) {
			delete m;
			return 1;
		}
		int c = b->next_cookie++;
		(*b->async)[c] = {cb, ud};
		m->reply_to = c;
		b->sock->push_back(m);
		return 1;
	});
}
int sim_sd_bus_call_methodv(sd_bus *b, const char *, const char *path, const char *iface, const char *member, sd_bus_error *err, sd_bus_message **reply, const char *types, va_list ap) {
	if (!bus_ok(b, member)) return -EINVAL;
	auto args = parse_args(types, ap);
	if (!path) {
		violation("C25", "no-object", "%s is called on no object: what an earlier step should have found out is missing", member);
		set_error(err, -EINVAL);
		return -EINVAL;
	}
	return call(b, path, iface, member, args, err, reply);
}
int sim_sd_bus_call_method(sd_bus *b, const char *d, const char *path, const char *iface, const char *member, sd_bus_error *err, sd_bus_message **reply, const char *types, ...) {
	va_list ap;
	va_start(ap, types);
	int r = sim_sd_bus_call_methodv(b, d, path, iface, member, err, reply, types, ap);
	va_end(ap);
	return r;
}
int sim_sd_bus_call_method_asyncv(sd_bus *b, sd_bus_slot **, const char *, const char *path, const char *iface, const char *member, sd_bus_message_handler_t cb, void *ud, const char *types, va_list ap) {
	if (!bus_ok(b, member)) return -EINVAL;
	return call_async(b, path, iface, member, parse_args(types, ap), cb, ud);
}
int sim_sd_bus_call_method_async(sd_bus *b, sd_bus_slot **s, const char *d, const char *path, const char *iface, const char *member, sd_bus_message_handler_t cb, void *ud, const char *types, ...) {
	va_list ap;
	va_start(ap, types);
	int r = sim_sd_bus_call_method_asyncv(b, s, d, path, iface, member, cb, ud, types, ap);
	va_end(ap);
	return r;
}
int sim_sd_bus_message_new_method_call(sd_bus *b, sd_bus_message **out, const char *, const char *path, const char *iface, const char *member) {
	if (!bus_ok(b, "message_new_method_call") || !path || !member) return -EINVAL;
	if (b->dead) return -ENOTCONN;
	Msg *m = new Msg;
	m->path = path;
	m->iface = iface ? iface : "";
	m->member = member;
	*out = msg_new(b, m);
	return 0;
}
int sim_sd_bus_message_appendv(sd_bus_message *m, const char *types, va_list ap) {
	if (!msg_ok(m, "message_append")) return -EINVAL;
	for (auto &v : parse_args(types, ap)) m->m->body.push_back(v);
	return 1;
}
int sim_sd_bus_message_append(sd_bus_message *m, const char *types, ...) {
	va_list ap;
	va_start(ap, types);
	int r = sim_sd_bus_message_appendv(m, types, ap);
	va_end(ap);
	return r;
}
int sim_sd_bus_message_append_basic(sd_bus_message *m, char t, const void *p) {
	if (!msg_ok(m, "message_append_basic")) return -EINVAL;
	if (t == 's' || t == 'o') m->m->body.push_back({t, 0, p ? (const char *)p : "", {}});
	else m->m->body.push_back({t, *(const u32 *)p, "", {}});
	return 1;
}
int sim_sd_bus_message_set_expect_reply(sd_bus_message *, int) { return 0; }
int sim_sd_bus_message_set_auto_start(sd_bus_message *, int) { return 0; }
int sim_sd_bus_call(sd_bus *b, sd_bus_message *m, uint64_t, sd_bus_error *err, sd_bus_message **reply) {
	if (!msg_ok(m, "sd_bus_call")) return -EINVAL;
	if (!b) b = m->bus;
	if (!bus_ok(b, "sd_bus_call")) return -EINVAL;
	auto body = m->m->body;
	return call(b, m->m->path, m->m->iface.c_str(), m->m->member.c_str(), body, err, reply);
}
int sim_sd_bus_call_async(sd_bus *b, sd_bus_slot **, sd_bus_message *m, sd_bus_message_handler_t cb, void *ud, uint64_t) {
	if (!msg_ok(m, "sd_bus_call_async")) return -EINVAL;
	if (!b) b = m->bus;
	if (!bus_ok(b, "sd_bus_call_async")) return -EINVAL;
	auto body = m->m->body;
	return call_async(b, m->m->path.c_str(), m->m->iface.c_str(), m->m->member.c_str(), body, cb, ud);
}
int sim_sd_bus_send(sd_bus *b, sd_bus_message *m, uint64_t *cookie) {
	if (cookie) *cookie = 1;
	return sim_sd_bus_call_async(b, nullptr, m, nullptr, nullptr, 0);
}
int sim_sd_bus_get_property_trivial(sd_bus *b, const char *, const char *path, const char *iface, const char *member, sd_bus_error *err, char type, void *ptr) {
	if (!bus_ok(b, member)) return -EINVAL;
	if (!path) return -EINVAL;
	return buscall(member, [&]() -> int {
		int q = b->dead ? -ECONNRESET : faultn(K_BUS, 2) ? -EIO : 0;
		if (!q && (std::string(iface) != SESS || std::string(member) != "Active" || type != 'b')) q = -EBADR;
		if (!b->dead) slurp(b);
		if (q < 0) {
			set_error(err, q);
			return q;
		}
		int v = lm->active;
		lm->active_read = v;
		lm->active_reads++;
		write_checked(ptr, sizeof v, &v, "sd_bus_get_property_trivial");
		return 0;
	});
}
int sim_sd_bus_get_property(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *err, sd_bus_message **reply, const char *type) {
	int v = 0;
	int q = sim_sd_bus_get_property_trivial(b, dest, path, iface, member, err, type && type[0] && !type[1] ? type[0] : '?', &v);
	if (q < 0) return q;
	Msg *rep = new Msg;
	rep->body.push_back(vb(v));
	*reply = msg_new(b, rep);
	return 1;
}
int sim_sd_bus_match_signal(sd_bus *b, sd_bus_slot **slot, const char *, const char *path, const char *iface, const char *member, sd_bus_message_handler_t cb, void *ud) {
	if (!bus_ok(b, "sd_bus_match_signal")) return -EINVAL;
	return buscall("match_signal", [&]() -> int {
		if (b->dead) return -ECONNRESET;
		if (faultn(K_BUS, 2)) return -ENOMEM;
		slurp(b);
		b->matches->push_back({iface ? iface : "", member ? member : "", path ? path : "", cb, ud, 0});
		if (slot) {
			sd_bus_slot *sl = (sd_bus_slot *)malloc(sizeof *sl);
			W->heap[sl] = {cur->pid, sizeof *sl};
			cur->allocs++;
			*sl = {1, b, ++b->next_slot};
			b->refs++;
			b->matches->back().id = sl->id;
			*slot = sl;
		}
		return 1;
	});
}
int sim_sd_bus_match_signal_async(sd_bus *b, sd_bus_slot **s, const char *d, const char *path, const char *iface, const char *member, sd_bus_message_handler_t cb, sd_bus_message_handler_t, void *ud) {
	return sim_sd_bus_match_signal(b, s, d, path, iface, member, cb, ud);
}
sd_bus *sim_sd_bus_ref(sd_bus *b) {
	if (b && bus_ok(b, "sd_bus_ref")) b->refs++;
	return b;
}
sd_bus_slot *sim_sd_bus_slot_ref(sd_bus_slot *s) {
	if (s) s->refs++;
	return s;
}
sd_bus_slot *sim_sd_bus_slot_unref(sd_bus_slot *s) {
	if (!s || --s->refs) return nullptr;
	if (bus_ok(s->bus, "sd_bus_slot_unref")) {
		auto &v = *s->bus->matches;
		v.erase(std::remove_if(v.begin(), v.end(), [&](const Match &m) { return m.id == s->id; }), v.end());
		sim_sd_bus_unref(s->bus);
	}
	sim_free(s);
	return nullptr;
}
void sim_sd_bus_close(sd_bus *b) {
	if (b && bus_ok(b, "sd_bus_close")) {
		b->dead = true;
		if (lm->controller == b) drop_controller();
	}
}
sd_bus *sim_sd_bus_close_unref(sd_bus *b) {
	sim_sd_bus_close(b);
	return sim_sd_bus_unref(b);
}
sd_bus *sim_sd_bus_flush_close_unref(sd_bus *b) { return sim_sd_bus_close_unref(b); }
int sim_sd_bus_error_is_set(const sd_bus_error *e) { return e && e->name; }
int sim_sd_bus_error_get_errno(const sd_bus_error *e) { return e && e->name ? EIO : 0; }
int sim_sd_bus_error_has_name(const sd_bus_error *e, const char *n) { return e && e->name && !strcmp(e->name, n); }
const char *sim_sd_bus_message_get_interface(sd_bus_message *m) { return msg_ok(m, "get_interface") && !m->m->iface.empty() ? m->m->iface.c_str() : nullptr; }
const char *sim_sd_bus_message_get_member(sd_bus_message *m) { return msg_ok(m, "get_member") && !m->m->member.empty() ? m->m->member.c_str() : nullptr; }
const char *sim_sd_bus_message_get_path(sd_bus_message *m) { return msg_ok(m, "get_path") ? m->m->path.c_str() : nullptr; }
int sim_sd_bus_message_is_signal(sd_bus_message *m, const char *i, const char *n) { return msg_ok(m, "is_signal") && (!i || m->m->iface == i) && (!n || m->m->member == n); }
int sim_sd_bus_message_rewind(sd_bus_message *m, int) {
	if (!msg_ok(m, "rewind")) return -EINVAL;
	m->cur->resize(1);
	(*m->cur)[0].second = 0;
	m->kinds->clear();
	return 1;
}
int sim_sd_bus_message_at_end(sd_bus_message *m, int) { return msg_ok(m, "at_end") ? m->cur->back().second >= m->cur->back().first->size() : -EINVAL; }
int sim_sd_bus_message_peek_type(sd_bus_message *m, char *t, const char **) {
	if (!msg_ok(m, "peek_type")) return -EINVAL;
	auto &c = m->cur->back();
	if (c.second >= c.first->size()) return 0;
	if (t) *t = (*c.first)[c.second].t;
	return 1;
}
int sim_sd_bus_get_timeout(sd_bus *, uint64_t *t) {
	*t = ~0ull;
	return 0;
}
sd_bus_message *sim_sd_bus_message_ref(sd_bus_message *m) {
	if (msg_ok(m, "message_ref")) m->refs++;
	return m;
}
sd_bus_message *sim_sd_bus_message_unref(sd_bus_message *m) {
	if (!m) return nullptr;
	if (!msg_ok(m, "sd_bus_message_unref")) return nullptr;
	if (--m->refs) return nullptr;
	int fd = m->fd;
	msg_delete(m);
	if (fd >= 0) sim_close(fd);
	sim_free(m);
	return nullptr;
}
int sim_sd_bus_message_is_method_error(sd_bus_message *m, const char *) { return msg_ok(m, "is_method_error") ? m->m->error : -EINVAL; }
const sd_bus_error *sim_sd_bus_message_get_error(sd_bus_message *m) {
	if (!msg_ok(m, "get_error") || !m->m->error) return nullptr;
	m->err = SD_BUS_ERROR_MAKE_CONST("org.sim.Error", "failed");
	return &m->err;
}
static int read1(sd_bus_message *m, char t, void *p) {
	auto &c = m->cur->back();
	if (c.second >= c.first->size()) return m->cur->size() > 1 && m->kinds->back() == 'a' ? 0 : -ENXIO;
	Val &v = (*c.first)[c.second];
	if (v.t != t) return -ENXIO;
	c.second++;
	if (t == 's' || t == 'o') {
		char *s = strdup(v.s.c_str());
		m->strs->push_back(s);
		if (p) write_checked(p, sizeof s, &s, "sd_bus_message_read");
	} else {
		int x = (int)v.u;
		if (p) write_checked(p, sizeof x, &x, "sd_bus_message_read");
	}
	return 1;
}
int sim_sd_bus_message_read_basic(sd_bus_message *m, char t, void *p) {
	if (!msg_ok(m, "read_basic")) return -EINVAL;
	if (fault(K_BUS)) return -EBADMSG;
	return read1(m, t, p);
}
int sim_sd_bus_message_read(sd_bus_message *m, const char *types, ...) {
	if (!msg_ok(m, "read")) return -EINVAL;
	if (fault(K_BUS)) return -EBADMSG;
	va_list ap;
	va_start(ap, types);
	int r = 1;
	for (const char *t = types; *t && r > 0; t++) r = read1(m, *t, va_arg(ap, void *));
	va_end(ap);
	return r;
}
int sim_sd_bus_message_enter_container(sd_bus_message *m, char t, const char *what) {
	if (!msg_ok(m, "enter_container")) return -EINVAL;
	auto &c = m->cur->back();
	if (c.second >= c.first->size()) return m->cur->size() > 1 && m->kinds->back() == 'a' ? 0 : -ENXIO;
	Val &v = (*c.first)[c.second];
	if (v.t != t || (what && contents(v) != what)) return -ENXIO;
	c.second++;
	m->cur->push_back({&v.kids, 0});
	m->kinds->push_back(t);
	return 1;
}
int sim_sd_bus_message_exit_container(sd_bus_message *m) {
	if (!msg_ok(m, "exit_container")) return -EINVAL;
	if (m->cur->size() < 2) return -ENXIO;
	auto &c = m->cur->back();
	if (c.second < c.first->size()) return -EBUSY;
	m->cur->pop_back();
	m->kinds->pop_back();
	return 1;
}
int sim_sd_bus_message_skip(sd_bus_message *m, const char *types) {
	if (!msg_ok(m, "skip")) return -EINVAL;
	auto &c = m->cur->back();
	if (!types) {
		if (c.second < c.first->size()) c.second++;
		return 1;
	}
	for (const char *t = types; *t; t++) {
		if (c.second >= c.first->size() || (*c.first)[c.second].t != *t) return -ENXIO;
		c.second++;
		while (*t == 'a') t++; // the element type belongs to it
		if (*t == '(' || *t == '{')
			for (int d = 0; *t; t++) {
				d += *t == '(' || *t == '{';
				if ((*t == ')' || *t == '}') && !--d) break;
			}
		if (!*t) break;
	}
	return 1;
}
int sim_sd_bus_process(sd_bus *b, sd_bus_message **out) {
	if (!bus_ok(b, "sd_bus_process")) return -EINVAL;
	if (out) *out = nullptr;
	Msg *m = nullptr;
	int r = buscall("process", [&]() -> int {
		if (b->dead) return -ECONNRESET;
		if (b->rq->empty() && !b->sock->empty()) {
			b->rq->push_back(b->sock->front());
			b->sock->pop_front();
		}
		if (b->rq->empty()) return 0;
		m = b->rq->front();
		b->rq->pop_front();
		return 1;
	});
	if (r <= 0) return r;
	sd_bus_message *x = msg_new(b, m);
	sd_bus_error err = SD_BUS_ERROR_NULL;
	if (m->reply_to) {
		auto it = b->async->find(m->reply_to);
		if (it != b->async->end()) {
			auto h = it->second;
			b->async->erase(it);
			if (h.first) h.first(x, h.second, &err);
		}
	} else {
		auto ms = *b->matches;
		for (auto &k : ms)
			if (k.fits(m->iface, m->member, m->path)) {
				(*x->cur).resize(1);
				(*x->cur)[0].second = 0;
				x->kinds->clear();
				k.cb(x, k.ud, &err);
				if (!live.count(x)) break;
			}
	}
	if (live.count(x)) sim_sd_bus_message_unref(x);
	else violation("C25 C24", "bus-message-stolen", "a handler released the bus message it was called with");
	return 1;
}
int sim_sd_bus_flush(sd_bus *) { return 0; }
int sim_sd_bus_get_events(sd_bus *) { return POLLIN; }
int sim_sd_pid_get_session(pid_t, char **s) {
	orc().on_bus_use(cur);
	if (!lm->has_pid_session || fault(K_BUS)) return -ENODATA;
	char *r = sim_strdup("c1");
	if (!r) return -ENOMEM;
	*s = r;
	return 0;
}
int sim_sd_uid_get_display(uid_t, char **s) {
	orc().on_bus_use(cur);
	if (!lm->has_display || fault(K_BUS)) return -ENODATA;
	char *r = sim_strdup("c1");
	if (!r) return -ENOMEM;
	*s = r;
	return 0;
}
int sim_sd_session_is_active(const char *s) {
	orc().on_bus_use(cur);
	return strcmp(s, "c1") ? -ENXIO : fault(K_BUS) ? -EIO : lm->active;
}
int sim_sd_session_get_seat(const char *s, char **seat) {
	orc().on_bus_use(cur);
	if (strcmp(s, "c1") || !lm->has_seat) return -ENXIO;
	if (fault(K_BUS)) return -EIO;
	char *r = sim_strdup("seat0");
	if (!r) return -ENOMEM;
	*seat = r;
	return 0;
}
}
