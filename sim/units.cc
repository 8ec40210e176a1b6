// The connection layer and the event loop on their own, against reference models.
// REPO-HEADERS
#include "units.h"
#include <poll.h>
#include <string.h>
extern "C" {
#include "connection.h"
#include "poller.h"
int S_connection_read(struct connection *);
int S_connection_flush(struct connection *);
int S_connection_put(struct connection *, const void *, size_t);
int S_connection_put_fd(struct connection *, int);
size_t S_connection_pending(struct connection *);
int S_connection_get(struct connection *, void *, size_t);
int S_connection_get_fd(struct connection *, int *);
void S_connection_restore(struct connection *, size_t);
void S_connection_close_fds(struct connection *);
int S_poller_init(struct poller *);
int S_poller_finish(struct poller *);
struct event_source_fd *S_poller_add_fd(struct poller *, int, uint32_t, event_source_fd_func_t, void *);
int S_event_source_fd_destroy(struct event_source_fd *);
int S_event_source_fd_update(struct event_source_fd *, uint32_t);
struct event_source_signal *S_poller_add_signal(struct poller *, int, event_source_signal_func_t, void *);
int S_event_source_signal_destroy(struct event_source_signal *);
int S_poller_poll(struct poller *);
}
static long arg(const Op *o, size_t i, long d = 0) { return i < o->a.size() ? o->a[i] : d; }
static long pos_mod(long v, long m) { return ((v % m) + m) % m; }

// ================================================================== C15: the connection layer
static const size_t CAP = 256, CAPFDS = 64;
struct FdPut {
	u32 id;
	u64 pos; // bytes put before it
};
struct End {
	int i = 0;
	Proc *p = nullptr;
	int fd = -1;
	u32 fid = 0;
	struct connection *c = nullptr;
	// outgoing
	u64 put = 0, sent = 0;
	std::deque<FdPut> fdq;
	std::deque<u32> wire; // descriptors in flight
	// incoming
	u64 rcvd = 0, got = 0, back = 0;
	std::deque<u32> fdin;
	std::map<u32, int> owned; // descriptors of the harness: id -> number
	bool dead = false, closed = false, cut = false;
	bool healed = false;
	// since the last call
	u64 io_sent = 0, io_rcvd = 0;
	int io_err = 0;
	bool io_eof = false, over = false;
};
static End *ends[2];
static unsigned char byte_at(int dir, u64 pos) { return (unsigned char)mix64(pos * 2 + (u64)dir + 77); }
static const char *P15 = "C15";

static void conn_fds(End &e, const char *after) {
	// The process holds exactly: 0-2, its end of the connection, and the descriptors the model says.
	std::multiset<u32> want, have;
	for (auto &f : e.fdq) want.insert(f.id);
	for (auto id : e.fdin) want.insert(id);
	for (auto &kv : e.owned) want.insert(kv.first);
	if (!e.closed) want.insert(e.fid);
	for (size_t k = 3; k < e.p->fds.size(); k++)
		if (e.p->fds[k].f) have.insert(e.p->fds[k].f->id);
	if (want == have) return;
	for (u32 id : have)
		if (have.count(id) > want.count(id)) {
			violation(P15, "fd-leak", "after %s a descriptor is still open that was handed over or could not be stored", after);
			return;
		}
	violation(P15, "fd-lost", "after %s a descriptor is closed that was not handed over", after);
}
static void e_put(End &e, size_t n) {
	std::string d;
	for (size_t k = 0; k < n; k++) d += (char)byte_at(e.i, e.put + k);
	u64 out = e.put - e.sent, before = e.put;
	char *buf = (char *)malloc(n ? n : 1); // exact size, so that an overread is seen
	memcpy(buf, d.data(), n);
	e.io_sent = 0, e.io_err = 0;
	e.put += n; // whatever is sent meanwhile may already include it
	int r = S_connection_put(e.c, buf, n);
	int err = errno;
	free(buf);
	trace("put(%zu) = %d (%llu waiting)", n, r, (unsigned long long)out);
	if (r == 0) {
		if (n > CAP) violation(P15, "put-too-much", "connection_put accepts %zu bytes", n);
		if (e.put - e.sent > CAP) violation(P15, "put-overflow", "connection_put accepts %zu bytes although %llu are waiting", n, (unsigned long long)(e.put - e.sent - n));
		return;
	}
	e.put = before;
	if (e.sent > e.put) {
		violation(P15, "put-error-sent", "connection_put failed but its bytes were sent");
		return;
	}
	if (r != -1) violation(P15, "put-result", "connection_put returns %d", r);
	if (n > CAP) {
		if (err != EOVERFLOW && !(e.io_err && err == e.io_err)) violation(P15, "put-errno", "connection_put of %zu bytes fails with %s", n, strerror(err));
		return;
	}
	if (out + n <= CAP) violation(P15, "put-fails", "connection_put of %zu bytes fails with %s although only %llu are waiting", n, strerror(err), (unsigned long long)out);
	else if (!e.io_err) violation(P15, "put-fails", "connection_put of %zu bytes fails with %s although flushing worked", n, strerror(err));
	else if (err != e.io_err) violation(P15, "put-errno", "connection_put fails with %s, sending failed with %s", strerror(err), strerror(e.io_err));
}
static void e_putfd(End &e) {
	File *f = file_new(F_NULL);
	u32 id = f->id;
	int fd = fd_install(e.p, f, true);
	if (fd < 0) harness_error("putfd");
	size_t n = e.fdq.size();
	int r = S_connection_put_fd(e.c, fd);
	int err = errno;
	trace("put_fd(%d) = %d", fd, r);
	if (n >= CAPFDS) {
		if (r != -1 || err != EOVERFLOW) violation(P15, "putfd-overflow", "connection_put_fd with %zu waiting returns %d (%s)", n, r, strerror(err));
		e.owned[id] = fd;
	} else if (r != 0) {
		violation(P15, "putfd-fails", "connection_put_fd fails with %s with %zu waiting", strerror(err), n);
		e.owned[id] = fd;
	} else e.fdq.push_back({id, e.put});
}
static bool e_flush(End &e) {
	e.io_sent = 0, e.io_err = 0;
	u64 out = e.put - e.sent;
	int r = S_connection_flush(e.c);
	int err = errno;
	trace("flush = %d", r);
	if (e.put == e.sent) {
		if (r < 0) violation(P15, "flush-fails", "connection_flush fails with %s although everything was sent", strerror(err));
		if (out && r == 0) violation(P15, "flush-result", "connection_flush sent %llu bytes but returns 0", (unsigned long long)out);
	} else if (r != -1) violation(P15, "flush-lies", "connection_flush returns %d but %llu bytes were not sent", r, (unsigned long long)(e.put - e.sent));
	else if (!e.io_err || err == EINTR) violation(P15, "flush-errno", "connection_flush gives up with %s", strerror(err));
	else if (err != e.io_err) violation(P15, "flush-errno", "connection_flush fails with %s, sending failed with %s", strerror(err), strerror(e.io_err));
	return e.put == e.sent;
}
// 1 data, 0 end of stream, -1 nothing
static int e_read(End &e) {
	u64 pend = e.rcvd - e.got;
	e.io_rcvd = 0, e.io_err = 0, e.io_eof = false, e.over = false;
	int r = S_connection_read(e.c);
	int err = errno;
	trace("read = %d", r);
	e.back = 0;
	if (pend >= CAP) {
		if (r != -1 || err != EOVERFLOW) violation(P15, "read-full", "connection_read with a full buffer returns %d", r);
		if (e.io_rcvd) violation(P15, "read-overwrites", "connection_read takes bytes although its buffer is full");
		return -1;
	}
	if (e.over) {
		probe("conn.fd_overflow");
		if (r != -1) violation(P15, "read-fd-overflow", "connection_read drops descriptors without reporting an error");
		e.dead = true;
		return -1;
	}
	if (e.io_rcvd) {
		if (r <= 0) violation(P15, "read-result", "connection_read took %llu bytes and returns %d", (unsigned long long)e.io_rcvd, r);
		return 1;
	}
	if (e.io_eof) {
		if (r != 0) violation(P15, "read-eof", "connection_read returns %d at the end of the stream", r);
		return 0;
	}
	if (r != -1) violation(P15, "read-result", "connection_read returns %d without having received anything", r);
	else if (!e.io_err || err == EINTR || err != e.io_err) violation(P15, "read-errno", "connection_read fails with %s", strerror(err));
	return -1;
}
static void e_pending(End &e) {
	size_t n = S_connection_pending(e.c);
	if (n != e.rcvd - e.got) violation(P15, "pending", "connection_pending is %zu, expected %llu", n, (unsigned long long)(e.rcvd - e.got));
}
static void e_get(End &e, size_t n) {
	u64 pend = e.rcvd - e.got;
	char *buf = (char *)malloc(n ? n : 1);
	int r = S_connection_get(e.c, buf, n);
	int err = errno;
	if (n > pend) {
		if (r != -1 || err != EAGAIN) violation(P15, "get-short", "connection_get of %zu bytes with %llu pending returns %d (%s)", n, (unsigned long long)pend, r, strerror(err));
	} else if (r < 0) violation(P15, "get-fails", "connection_get of %zu bytes with %llu pending fails", n, (unsigned long long)pend);
	else {
		for (size_t k = 0; k < n; k++)
			if ((unsigned char)buf[k] != byte_at(1 - e.i, e.got + k)) {
				violation(P15, "bytes", "connection_get returns a byte that is not the one put at position %llu", (unsigned long long)(e.got + k));
				break;
			}
		e.got += n;
		e.back += n;
	}
	free(buf);
}
static void e_getfd(End &e) {
	int fd = -1;
	int r = S_connection_get_fd(e.c, &fd);
	int err = errno;
	if (e.fdin.empty()) {
		if (r != -1 || err != EAGAIN) violation(P15, "getfd-none", "connection_get_fd without a descriptor returns %d", r);
		return;
	}
	if (r < 0) {
		violation(P15, "getfd-fails", "connection_get_fd fails with %s although %zu descriptors arrived", strerror(err), e.fdin.size());
		return;
	}
	File *f = fd_get(e.p, fd);
	if (!f || f->id != e.fdin.front()) {
		violation(P15, "fd-order", "connection_get_fd returns a descriptor out of order");
		return;
	}
	e.owned[f->id] = fd;
	e.fdin.pop_front();
}
static void e_drop_owned(End &e) {
	for (auto &kv : e.owned) k_close(e.p, kv.second);
	e.owned.clear();
}
static bool e_step(End &e) { // flush and take everything there is; false when the end of the stream was reached
	bool hard = !e_flush(e) && e.io_err != EAGAIN;
	int r;
	do {
		bool full = e.rcvd - e.got >= CAP;
		r = e_read(e);
		if (e.dead) return false;
		if (full) r = 1;
		size_t n = e.rcvd - e.got;
		e_pending(e);
		while (n) {
			size_t k = std::min<size_t>(n, 1 + (e.got % 61));
			e_get(e, k);
			n -= k;
			if (W->stop) return false;
		}
		while (!e.fdin.empty() && !W->stop) {
			size_t before = e.fdin.size();
			e_getfd(e);
			if (e.fdin.size() == before) return false;
		}
		if (W->stop) return false;
	} while (r == 1);
	e_drop_owned(e);
	return r != 0 && !hard && (r == 1 || e.io_err == EAGAIN);
}
static void e_close(End &e) {
	if (e.closed) return;
	S_connection_close_fds(e.c);
	e.fdq.clear();
	e.fdin.clear();
	e_drop_owned(e);
	e.closed = true;
	sim_close(e.fd);
	conn_fds(e, "closing");
}
static int conn_main(End *e) {
	for (auto o : ops_of(e->p->actor)) {
		if (W->stop || e->closed || e->dead) break;
		const std::string &v = o->verb;
		if (v == "put") e_put(*e, (size_t)arg(o, 0));
		else if (v == "putfd") for (long k = 0, n = arg(o, 0, 1); k < n; k++) e_putfd(*e);
		else if (v == "flush") e_flush(*e);
		else if (v == "read") e_read(*e);
		else if (v == "get") e_get(*e, (size_t)arg(o, 0));
		else if (v == "getall") e_get(*e, e->rcvd - e->got);
		else if (v == "getfd") for (long k = 0, n = arg(o, 0, 1); k < n; k++) e_getfd(*e);
		else if (v == "restore") {
			size_t n = (size_t)std::min<u64>((u64)arg(o, 0), e->back);
			S_connection_restore(e->c, n);
			e->got -= n;
			e->back -= n;
			probe("conn.restore");
		} else if (v == "pending") e_pending(*e);
		else if (v == "closefds") {
			S_connection_close_fds(e->c);
			e->fdq.clear();
			e->fdin.clear();
		} else if (v == "sleep") wait_for(nullptr, 0, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
		else if (v == "wait") wait_for(fd_get(e->p, e->fd), POLLIN, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
		else if (v == "drop") e_drop_owned(*e);
		else if (v == "shut") {
			sim_shutdown(e->fd, (int)arg(o, 0));
			ends[0]->cut = ends[1]->cut = true;
		} else if (v == "close") e_close(*e);
		conn_fds(*e, v.c_str());
		W->states.insert(mix64((e->put - e->sent) / 64 * 64 + (e->rcvd - e->got) / 64 + (e->fdq.size() / 16) * 4096 + (e->fdin.size() / 16) * 65536 + (u64)e->i));
	}
	while (G->phase == PH_MAIN && !W->stop) wait_for(nullptr, 0, ~0ull, PH_MAIN);
	while (!W->stop && !e->closed && !e->dead && G->phase < PH_END) {
		if (!e_step(*e)) break;
		conn_fds(*e, "reading");
		File *f = fd_get(e->p, e->fd);
		wait_for(f, e->put != e->sent ? POLLIN | POLLOUT : POLLIN, ~0ull, PH_HEAL);
	}
	while (G->phase < PH_END && !W->stop) wait_for(nullptr, 0, ~0ull, PH_HEAL);
	if (W->stop) return 0;
	// the other end leaves first in half of the runs
	if (e->i == (int)W->plan->get("leave")) {
		e_close(*e);
	} else if (!e->closed && !e->dead) {
		wait_for(fd_get(e->p, e->fd), POLLIN, ~0ull, PH_END);
		int n = 0;
		while (!W->stop && n++ < 600 && !ends[1 - e->i]->dead && e_step(*e)) wait_for(fd_get(e->p, e->fd), POLLIN, ~0ull, PH_END);
		if (n >= 600) violation(P15, "eof-missing", "the end of the stream is not reported");
		e_close(*e);
	} else e_close(*e);
	sim_free(e->c);
	return 0;
}
template <class T> static void start_at(T &c, u32 off) {
	// As after a long life: the ring positions are anywhere in their range.
	if constexpr (requires { c.in.head = off; c.in.tail = off; c.out.head = off; c.out.tail = off; }) {
		c.in.head = c.in.tail = off;
		c.out.head = c.out.tail = off + 100;
	}
	if constexpr (requires { c.fds_in.head = off; c.fds_in.tail = off; c.fds_out.head = off; c.fds_out.tail = off; }) {
		c.fds_in.head = c.fds_in.tail = off & ~3u;
		c.fds_out.head = c.fds_out.tail = (off + 60) & ~3u;
	}
}
void drive_conn(Plan &p) {
	G = new Game;
	W->sock_cap = (size_t)p.get("sockcap", 1 << 16);
	File *f[2] = {nullptr, nullptr};
	for (int i = 0; i < 2; i++) {
		End *e = ends[i] = new End;
		e->i = i;
		e->p = proc_new(i ? "right" : "left", 10 + i, IMG_S, nullptr);
		e->p->ppid = 1;
		e->p->faultable = true;
		e->p->fd_limit = 2048;
	}
	int sv[2];
	if (k_socketpair(ends[0]->p, SOCK_STREAM, sv) < 0) harness_error("socketpair");
	for (int i = 0; i < 2; i++) f[i] = fd_get(ends[0]->p, sv[i]);
	file_ref(f[1]);
	k_close(ends[0]->p, sv[1]);
	ends[0]->fd = sv[0];
	ends[1]->fd = fd_install(ends[1]->p, f[1], true);
	for (int i = 0; i < 2; i++) {
		End *e = ends[i];
		e->fid = f[i]->id;
		e->c = (struct connection *)malloc(sizeof *e->c);
		memset(e->c, 0, sizeof *e->c);
		W->heap[e->c] = {e->p->pid, sizeof *e->c};
		e->c->fd = e->fd;
		if (p.get("off")) start_at(*e->c, (u32)p.get("off"));
		e->p->entry = [e]() { return conn_main(e); };
	}
	auto end_of = [](Proc *p) -> End * { return p == ends[0]->p ? ends[0] : p == ends[1]->p ? ends[1] : nullptr; };
	orc().send_hook = [end_of](Proc *p, File *, const std::string &d, const std::vector<File *> &fds, long acc) {
		End *e = end_of(p);
		if (!e) return;
		if (d.size() > e->put - e->sent) violation(P15, "send-extra", "%zu bytes are offered to the socket but only %llu were put", d.size(), (unsigned long long)(e->put - e->sent));
		for (size_t k = 0; k < d.size(); k++)
			if ((unsigned char)d[k] != byte_at(e->i, e->sent + k)) {
				violation(P15, "bytes", "the byte offered to the socket is not the one put at position %llu", (unsigned long long)(e->sent + k));
				break;
			}
		if (acc <= 0) return;
		e->sent += (u64)acc;
		for (auto g : fds) {
			if (e->fdq.empty() || e->fdq.front().id != g->id) {
				violation(P15, "fd-order", "a descriptor is sent that was not put, or out of order");
				break;
			}
			e->wire.push_back(g->id);
			e->fdq.pop_front();
		}
		if (!e->fdq.empty() && e->fdq.front().pos < e->sent) violation(P15, "fd-late", "bytes are sent before a descriptor that was put before them");
	};
	orc().recv_hook = [end_of](Proc *p, File *, const char *, size_t n, const std::vector<File *> &fds) {
		End *e = end_of(p);
		if (!e) return;
		End *o = ends[1 - e->i];
		e->rcvd += n;
		if (e->rcvd - e->got > CAP) violation(P15, "read-overwrites", "%llu bytes are taken into a buffer of %zu", (unsigned long long)(e->rcvd - e->got), CAP);
		e->over |= e->fdin.size() + fds.size() > CAPFDS;
		for (auto g : fds) {
			if (o->wire.empty() || o->wire.front() != g->id) harness_error("descriptor stream");
			o->wire.pop_front();
			if (!e->over) e->fdin.push_back(g->id);
		}
	};
	orc().io_hook = [end_of](Proc *p, bool w, int, long r) {
		End *e = end_of(p);
		if (!e) return;
		if (r < 0) {
			if (r != -EINTR) e->io_err = (int)-r;
		} else if (w) e->io_sent += (u64)r;
		else if (r == 0) e->io_eof = true;
		else e->io_rcvd += (u64)r;
	};
	run_world(20000);
	if (!W->stop) {
		W->faults_on = false;
		G->phase = PH_HEAL;
		if (settle("after faults stopped")) {
			bool cut = false;
			for (auto e : ends) cut |= e->dead || e->closed || e->cut;
			for (auto e : ends) {
				End *o = ends[1 - e->i];
				if (cut) break;
				if (e->put != e->sent) violation(P15, "stuck", "%llu bytes were never sent", (unsigned long long)(e->put - e->sent));
				else if (o->got != e->put) violation(P15, "lost", "%llu bytes were put, %llu arrived", (unsigned long long)e->put, (unsigned long long)o->got);
				for (auto &q : e->fdq)
					if (q.pos < e->put) violation(P15, "fd-lost", "a descriptor was never sent");
				if (!e->wire.empty() || !e->fdin.empty()) violation(P15, "fd-lost", "a descriptor never arrived");
			}
			G->phase = PH_END;
			settle("at the end");
		}
	}
	delete ends[0];
	delete ends[1];
	ends[0] = ends[1] = nullptr;
}

// ================================================================== C26: the event loop
static const char *P26 = "C26";
static const int SIGS[] = {SIGTERM, SIGINT, SIGUSR1, SIGUSR2, SIGHUP, SIGWINCH};
struct Src {
	int n = 0;
	bool sig = false;
	bool alive = false;
	// descriptor
	struct event_source_fd *es = nullptr;
	int fd = -1;
	u32 mask = 0, polled_mask = 0;
	u64 reg_round = 0, call_round = 0;
	int starved = 0;
	// signal
	struct event_source_signal *ss = nullptr;
	int signo = 0;
	u64 raised = 0, served = 0; // sequence numbers
	bool may = false; // raised while it was being added
	int depth = 0;
};
struct Chan {
	int fd = -1;     // the event loop's end
	File *mine = nullptr, *peer = nullptr; // peer: held by the outside world
	bool open = true, peer_open = true;
	int in = 0;      // actions left
	bool sock = false;
};
struct Loop {
	Proc *p = nullptr;
	struct poller pl;
	std::vector<Src *> srcs;
	std::vector<Chan> ch;
	std::deque<Op *> hops; // what handlers do, in order
	u64 round = 0, seq = 0;
	std::map<int, short> revents; // of the last poll
	bool endless = false;
	Src *adding = nullptr;
	bool in_poll = false, polled = false, running = false, faulted = false;
	u64 calls = 0;
	Chan stop;
	~Loop() {
		for (auto s : srcs) delete s;
	}
};
static Loop *L;
static int l_stop_handler(int, uint32_t, void *) {
	return 0;
}
static void l_drain(int fd) {
	char b[512];
	File *f = fd_get(cur, fd);
	if (!f) return;
	if (f->type == F_PIPE_R) f->pipe->data.clear();
	else if (f->type == F_SOCK) {
		f->rx.clear();
		f->rxbytes = 0;
	}
	(void)b;
}
static bool l_quiet() { return G->phase >= PH_HEAL; }
static void l_kill(Src *s) {
	if (!s->alive) return;
	s->alive = false;
	trace("destroy source %d", s->n);
	if (s->sig) S_event_source_signal_destroy(s->ss);
	else S_event_source_fd_destroy(s->es);
}
static int l_fd_handler(int fd, uint32_t mask, void *data);
static int l_sig_handler(int sig, void *data);
static void l_action(Op *o);
static void l_add_fd(int c, u32 mask) {
	Chan &h = L->ch[(size_t)c];
	if (!h.open) return;
	Src *s = new Src;
	s->n = (int)L->srcs.size();
	L->srcs.push_back(s);
	s->fd = h.fd;
	s->mask = mask;
	s->reg_round = L->round;
	u64 nf = L->p->nfaults;
	s->es = S_poller_add_fd(&L->pl, h.fd, mask, l_fd_handler, s);
	trace("add fd source %d fd %d mask %x: %p", s->n, h.fd, mask, s->es ? (void *)1 : nullptr);
	if (s->es) s->alive = true;
	else if (L->p->nfaults == nf) violation(P26, "add-fails", "poller_add_fd fails with %s", strerror(errno));
}
static void l_add_sig(int signo) {
	Src *s = new Src;
	s->n = (int)L->srcs.size();
	s->sig = true;
	s->signo = signo;
	L->srcs.push_back(s);
	u64 nf = L->p->nfaults;
	L->adding = s;
	s->ss = S_poller_add_signal(&L->pl, signo, l_sig_handler, s);
	L->adding = nullptr;
	trace("add signal source %d for %d", s->n, signo);
	if (s->ss) s->alive = true;
	else if (L->p->nfaults == nf) violation(P26, "add-fails", "poller_add_signal fails with %s", strerror(errno));
}
static bool l_may_signal(int sg) {
	if (L->p->act[sg].h != SIG_DFL) return true;
	for (auto s : L->srcs)
		if (s->alive && s->sig && s->signo == sg) violation(P26, "signal-default", "signal %d has its default action although a handler is registered for it", sg);
	return false;
}
static Src *l_pick(long k, int kind) { // kind: 0 any, 1 descriptor
	std::vector<Src *> v;
	for (auto s : L->srcs)
		if (s->alive && (kind == 0 || !s->sig)) v.push_back(s);
	return v.empty() ? nullptr : v[(size_t)pos_mod(k, (long)v.size())];
}
static void l_action(Op *o) {
	const std::string &v = o->verb;
	std::vector<Src *> use;
	if (v == "destroy") {
		if (Src *s = l_pick(arg(o, 0), 0)) l_kill(s);
	} else if (v == "update") {
		if (Src *s = l_pick(arg(o, 0), 1)) {
			s->mask = (u32)arg(o, 1);
			trace("update source %d mask %x", s->n, s->mask);
			S_event_source_fd_update(s->es, s->mask);
		}
	} else if (v == "add") l_add_fd((int)pos_mod(arg(o, 0), (long)L->ch.size()), (u32)arg(o, 1));
	else if (v == "addsig") l_add_sig(SIGS[pos_mod(arg(o, 0), 6)]);
	else if (v == "raise") {
		int sg = SIGS[pos_mod(arg(o, 0), 6)];
		if (l_may_signal(sg)) sim_kill(L->p->pid, sg);
	} else if (v == "drain") l_drain(L->ch[(size_t)pos_mod(arg(o, 0), (long)L->ch.size())].fd);
	else if (v == "replace") { // as a daemon drops one client and takes the next, which gets the same descriptor
		Src *s = l_pick(arg(o, 0), 1);
		if (!s) return;
		for (size_t c = 0; c < L->ch.size(); c++) {
			Chan &h = L->ch[c];
			if (h.fd != s->fd || !h.open) continue;
			for (auto x : L->srcs)
				if (!x->sig && x->fd == s->fd) l_kill(x);
			sim_close(h.fd);
			h.open = false;
			int sv[2];
			if (k_socketpair(cur, SOCK_STREAM, sv) < 0) return;
			Chan n;
			n.fd = sv[0];
			n.mine = fd_get(cur, sv[0]);
			n.peer = fd_get(cur, sv[1]);
			file_ref(n.peer);
			k_close(cur, sv[1]);
			n.sock = true;
			probe("poller.replace");
			L->ch.push_back(n);
			l_add_fd((int)L->ch.size() - 1, (u32)arg(o, 1, EVENT_READABLE));
			return;
		}
	}
}
static void l_next_actions() {
	long n = 1;
	while (n-- > 0 && !L->hops.empty()) {
		Op *o = L->hops.front();
		L->hops.pop_front();
		if (o->verb == "none") break;
		if (o->verb == "more") n += 1 + arg(o, 0);
		else l_action(o);
		if (W->stop) break;
	}
}
static int l_fd_handler(int fd, uint32_t mask, void *data) {
	Src *s = (Src *)data;
	L->calls++;
	trace("handler of source %d fd %d mask %x", s->n, fd, mask);
	mixh(0x4a + (u64)s->n * 64 + mask);
	if (!L->in_poll) violation(P26, "outside", "a handler is called outside of poller_poll");
	if (!s->alive) {
		violation(P26, "dead-handler", "the handler of a descriptor source is called after its removal");
		return 0;
	}
	if (fd != s->fd) violation(P26, "wrong-fd", "a handler for descriptor %d is called with %d", s->fd, fd);
	if (s->reg_round == L->round) violation(P26, "stale-new", "the handler of a source is called in the round that added it, with conditions it cannot have");
	if (s->call_round == L->round) violation(P26, "stale-twice", "a handler is called twice for one condition");
	s->call_round = L->round;
	s->starved = 0;
	auto it = L->revents.find(fd);
	short rv = it == L->revents.end() ? 0 : it->second;
	u32 ok = 0;
	if (rv & POLLIN && s->polled_mask & EVENT_READABLE) ok |= EVENT_READABLE;
	if (rv & POLLOUT && s->polled_mask & EVENT_WRITABLE) ok |= EVENT_WRITABLE;
	if (rv & POLLERR) ok |= EVENT_ERROR;
	if (rv & POLLHUP) ok |= EVENT_HANGUP;
	if (!mask || (mask & ~ok)) violation(P26, "stale-mask", "a handler is called with conditions %x, pending were %x", mask, ok);
	// what it does about it
	if (l_quiet()) {
		l_drain(fd);
		if (mask & (EVENT_HANGUP | EVENT_ERROR)) l_kill(s);
		else if (mask & EVENT_WRITABLE) {
			s->mask &= ~(u32)EVENT_WRITABLE;
			S_event_source_fd_update(s->es, s->mask);
		}
		return 0;
	}
	bool mine = s->n % 3 != 0;
	if (mine) l_drain(fd);
	l_next_actions();
	if (!mine && s->alive && L->calls % 3) l_drain(fd);
	if (s->alive && (mask & (EVENT_HANGUP | EVENT_ERROR)) && L->calls % 4) l_kill(s);
	if (s->alive && (mask & EVENT_WRITABLE) && L->calls % 5) {
		s->mask &= ~(u32)EVENT_WRITABLE;
		S_event_source_fd_update(s->es, s->mask);
	}
	return L->calls % 7 ? 0 : 1;
}
static int l_sig_handler(int sig, void *data) {
	Src *s = (Src *)data;
	L->calls++;
	trace("handler of signal source %d (%d)", s->n, sig);
	mixh(0x51 + (u64)s->n);
	if (!L->in_poll) violation(P26, "outside", "a signal source's handler is called outside of poller_poll");
	if (!s->alive) {
		violation(P26, "dead-handler", "the handler of a signal source is called after its removal");
		return 0;
	}
	if (sig != s->signo) violation(P26, "wrong-signal", "a handler for signal %d is called with %d", s->signo, sig);
	if (s->raised <= s->served && !s->may) violation(P26, "signal-spurious", "a signal handler is called although the signal was not raised again");
	s->may = false;
	s->served = ++L->seq;
	s->depth++;
	if (!l_quiet()) l_next_actions();
	s->depth--;
	return 0;
}
static void l_idle_checks() {
	// nothing to do: every raised signal was served and no descriptor waits
	for (auto s : L->srcs) {
		if (!s->alive) continue;
		if (s->sig) {
			if (L->p->sigpending >> s->signo & 1) violation(P26, "signal-blocked", "a signal with a registered handler stays blocked");
			if (s->raised > s->served) violation(P26, "signal-lost", "the event loop waits although a raised signal was not passed to a handler registered for it");
			continue;
		}
		File *f = fd_get(L->p, s->fd);
		if (!f) continue;
		short ev = (short)((s->mask & EVENT_READABLE ? POLLIN : 0) | (s->mask & EVENT_WRITABLE ? POLLOUT : 0));
		short r = file_poll(f) & (ev | POLLERR | POLLHUP);
		if (r) violation(P26, "event-lost", "the event loop waits although a registered descriptor is ready (%x)", r);
	}
}
static bool l_poll() {
	L->round++;
	L->in_poll = true;
	L->polled = false;
	u64 nf = L->p->nfaults;
	int r = S_poller_poll(&L->pl);
	int err = errno;
	L->in_poll = false;
	trace("poller_poll = %d", r);
	if (r == -1 && L->p->nfaults == nf) violation(P26, "poll-fails", "poller_poll fails with %s although nothing failed", strerror(err));
	if (r != -1 && r != 0) violation(P26, "poll-result", "poller_poll returns %d", r);
	// nobody starves
	if (r == 0)
		for (auto s : L->srcs) {
			if (!s->alive || s->sig || s->call_round == L->round || s->reg_round == L->round) continue;
			auto it = L->revents.find(s->fd);
			short ev = (short)((s->polled_mask & EVENT_READABLE ? POLLIN : 0) | (s->polled_mask & EVENT_WRITABLE ? POLLOUT : 0));
			if (it != L->revents.end() && it->second & (ev | POLLERR | POLLHUP) && s->mask == s->polled_mask) {
				if (++s->starved > 30) violation(P26, "starved", "a ready descriptor is not served in 30 rounds");
			} else s->starved = 0;
		}
	else
		for (auto s : L->srcs) s->starved = 0;
	return r == 0;
}
static int poller_main() {
	int lives = (int)W->plan->get("lives", 1);
	auto ops = ops_of(10);
	size_t oi = 0;
	for (int life = 0; life < lives && !W->stop; life++) {
		long base = L->p->allocs;
		L->running = false;
		u64 nf = L->p->nfaults;
		if (S_poller_init(&L->pl) == -1) {
			if (L->p->nfaults == nf) violation(P26, "init-fails", "poller_init fails with %s", strerror(errno));
			return 0; // the callers give up as well
		}
		L->running = true;
		L->endless = !S_poller_add_fd(&L->pl, L->stop.fd, EVENT_READABLE, l_stop_handler, nullptr);
		for (; oi < ops.size() && !W->stop && G->phase < PH_END; oi++) {
			Op *o = ops[oi];
			if (o->verb == "life") {
				oi++;
				break;
			}
			if (o->verb == "poll") {
				for (long k = 0; k < arg(o, 0, 1) && !W->stop && G->phase < PH_END; k++) l_poll();
			} else if (o->verb == "pause") wait_for(nullptr, 0, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
			else l_action(o);
			u64 st = 0;
			for (auto s : L->srcs)
				if (s->alive) st = st * 31 + (s->sig ? 64 : 0) + s->mask * 2 + (s->sig ? s->raised > s->served : fd_get(L->p, s->fd) && file_poll(fd_get(L->p, s->fd)));
			W->states.insert(mix64(st));
		}
		// then it runs as long as the world does
		if (life == lives - 1) {
			while (!W->stop && G->phase < PH_END) l_poll();
		}
		L->running = false;
		for (auto s : L->srcs) s->alive = false;
		S_poller_finish(&L->pl);
		long left = L->p->allocs - base;
		if (left > 0) violation("C26 C28", "poller-leak", "%ld allocations are left after poller_finish", left);
	}
	return 0;
}
static int poller_world(Proc *me, int actor) {
	for (auto o : ops_of(actor)) {
		if (W->stop || G->phase > PH_MAIN) break;
		const std::string &v = o->verb;
		if (v == "sleep") {
			wait_for(nullptr, 0, W->now + (u64)arg(o, 0) * 1000, PH_MAIN);
			continue;
		}
		sim_sched_yield();
		if (v == "sig") {
			int sg = SIGS[pos_mod(arg(o, 0), 6)];
			if (L->p->st == P_ZOMBIE || L->p->st == P_DEAD || !L->running || !l_may_signal(sg)) continue;
			trace("send signal %d", sg);
			post_signal(L->p, sg);
			continue;
		}
		Chan &h = L->ch[(size_t)pos_mod(arg(o, 0), (long)L->ch.size())];
		if (v == "write" && h.peer_open) {
			if (h.peer->type == F_PIPE_W) {
				if (h.peer->pipe->readers) h.peer->pipe->data += "x";
			} else if (h.peer->peer) {
				Skb s;
				s.data = "x";
				h.peer->peer->rx.push_back(s);
				h.peer->peer->rxbytes++;
			}
		} else if (v == "close" && h.peer_open) {
			h.peer_open = false;
			file_unref(h.peer);
		}
	}
	return 0;
}
void drive_poller(Plan &p) {
	G = new Game;
	L = new Loop;
	memset(&L->pl, 0, sizeof L->pl);
	L->p = proc_new("loop", 10, IMG_S, poller_main);
	L->p->ppid = 1;
	L->p->faultable = true;
	for (int i = 0; i < 6; i++)
		if (p.get("pmask") >> i & 1) L->p->sigrun |= 1ull << SIGS[i]; // inherited
	for (long i = 0, n = p.get("chans", 3); i <= n; i++) {
		Chan c;
		c.sock = i < n && (p.get("kinds") >> i) & 1;
		if (c.sock) {
			int sv[2];
			k_socketpair(L->p, SOCK_STREAM, sv);
			c.fd = sv[0];
			c.mine = fd_get(L->p, sv[0]);
			c.peer = fd_get(L->p, sv[1]);
			file_ref(c.peer);
			k_close(L->p, sv[1]);
		} else {
			File *r = file_new(F_PIPE_R), *w = file_new(F_PIPE_W);
			r->pipe = w->pipe = new PipeBuf;
			r->pipe->readers = r->pipe->writers = 1;
			c.fd = fd_install(L->p, r, true);
			c.mine = r;
			c.peer = w;
		}
		if (i == n) L->stop = c;
		else L->ch.push_back(c);
	}
	for (auto o : ops_of(12)) L->hops.push_back(o);
	Proc *w = proc_new("world", 11, IMG_NONE, nullptr);
	w->ppid = 1;
	w->entry = [w]() { return poller_world(w, 11); };
	Proc *w2 = proc_new("signals", 13, IMG_NONE, nullptr);
	w2->ppid = 1;
	w2->entry = [w2]() { return poller_world(w2, 13); };
	orc().pollenter_hook = [](Proc *p, bool idle) {
		if (p != L->p) return;
		L->polled = true;
		for (auto s : L->srcs)
			if (s->alive) s->polled_mask = s->mask;
		if (idle) l_idle_checks();
	};
	orc().pollret_hook = [](Proc *p, const struct pollfd *f, size_t n, long r) {
		if (p != L->p) return;
		L->revents.clear();
		if (r > 0)
			for (size_t i = 0; i < n; i++) L->revents[f[i].fd] |= f[i].revents;
	};
	orc().signal_hook = [](Proc *p, int sig) {
		if (p != L->p) return;
		L->seq++;
		if (!L->running) return;
		if (L->adding && L->adding->signo == sig) L->adding->may = true;
		probe(L->in_poll ? "poller.signal_in_poll" : "poller.signal_outside");
		for (auto s : L->srcs)
			if (s->alive && s->sig && s->signo == sig) {
				s->raised = L->seq;
				if (s->depth) probe("poller.raised_in_its_handler");
			}
	};
	run_world(20000);
	if (!W->stop) {
		W->faults_on = false;
		G->phase = PH_HEAL;
		if (settle("after faults stopped")) {
			auto alive = [](Proc *q) { return q->st != P_ZOMBIE && q->st != P_DEAD; };
			if (alive(L->p)) {
				if (!L->in_poll) harness_error("the loop waits elsewhere");
				l_idle_checks();
				// woken up one last time, by every signal in turn
				for (int sg : SIGS) {
					if (W->stop || !L->running || !l_may_signal(sg)) continue;
					post_signal(L->p, sg);
					if (!settle("after a signal")) break;
					l_idle_checks();
				}
				G->phase = PH_END;
				if (!W->stop && !L->endless) {
					L->stop.peer->pipe->data += "x";
					if (settle("at the end") && alive(L->p)) violation(P26, "stop", "the event loop does not come back for a ready descriptor");
				}
			}
		}
	}
	for (auto &c : L->ch)
		if (c.peer_open) file_unref(c.peer);
	file_unref(L->stop.peer);
	delete L;
	L = nullptr;
}
