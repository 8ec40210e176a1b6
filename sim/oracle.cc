// The properties as invariants over what the simulated kernel sees: bytes and descriptors on the
// wire, ioctls, opens, VT state. Nothing here looks into the memory of the code under test.
#include "oracle.h"
#include "shim.h"
#include <algorithm>
#include <fcntl.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <sys/wait.h>

const char *st_name[] = {"none", "new", "enabled", "pending", "disabled", "closed"};
Oracle &orc() { return *(Oracle *)W->mon; }
void fs_changed() { orc().fsgen++; }

std::string expand_props(const std::string &s) {
	std::string r = s;
	auto rep = [&](const char *a, const char *b) {
		size_t i;
		while ((i = r.find(a)) != std::string::npos) r.replace(i, strlen(a), b);
	};
	rep("@daemon", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C23 C26 C28 C30");
	rep("@lib", "C15 C16 C17 C18 C19 C20 C23 C24 C25 C27 C30");
	return r;
}

Oracle::~Oracle() {
	for (auto c : conns) delete c;
	for (auto s : srvs) delete s;
}
Srv *Oracle::srv_of(Proc *p) {
	for (auto s : srvs)
		if (s->pid == p->pid) return s;
	Srv *s = new Srv;
	s->p = p;
	s->pid = p->pid;
	s->builtin = p->is_builtin;
	for (auto &e : p->env)
		if (e.first == "SEATD_VTBOUND") s->vt_bound = e.second == "1";
	srvs.push_back(s);
	return s;
}
Srv *Oracle::main_srv() {
	for (size_t i = srvs.size(); i-- > 0;)
		if (!srvs[i]->exited) return srvs[i];
	return nullptr;
}
Conn *Oracle::conn_of(File *f) {
	if (f->type != F_SOCK || f->conn < 0 || (size_t)f->conn >= conns.size()) return nullptr;
	return conns[f->conn];
}
Conn *Oracle::newest_conn_of(Proc *p) {
	for (size_t i = conns.size(); i-- > 0;) {
		Conn *c = conns[i];
		if (!c->cf) continue;
		for (auto &e : p->fds)
			if (e.f == c->cf) return c;
	}
	return nullptr;
}
Conn *Oracle::conn_new(Srv *s, File *f, bool builtin) {
	Conn *c = new Conn;
	c->id = (int)conns.size();
	c->srv = s;
	c->f = f;
	c->cf = f->peer;
	c->builtin = builtin;
	c->cpid = f->peer_pid;
	c->fault_at_accept = s->faults;
	f->conn = c->id;
	if (f->peer) f->peer->conn = c->id;
	conns.push_back(c);
	s->conns.push_back(c);
	trace("oracle: connection %d", c->id);
	return c;
}
void Oracle::on_accept(Proc *p, File *f) {
	if (p->is_daemon) conn_new(srv_of(p), f, false);
}
Conn *Oracle::server_conn(Proc *p, File *f) {
	Conn *c = conn_of(f);
	if (!c && p->is_builtin) c = conn_new(srv_of(p), f, true);
	return c && c->f == f && c->srv->pid == p->pid ? c : nullptr;
}

// ------------------------------------------------------------------ client -> server
bool Oracle::path_ok(const std::string &p, std::string &canon) {
	if (k_realpath(p, canon, true) < 0) return false;
	auto pre = [&](const char *x) { return canon.compare(0, strlen(x), x) == 0; };
	return pre("/dev/dri/") || pre("/dev/input/event") || pre("/dev/hidraw");
}
void Oracle::feed(Conn &c, const char *d, size_t n) {
	c.in.append(d, n);
	c.in_total += n;
	while (!c.malformed && c.in.size() >= 4) {
		uint16_t op, size;
		memcpy(&op, c.in.data(), 2);
		memcpy(&size, c.in.data() + 2, 2);
		if (size > 252) c.oversize = true; // can never be completed
		if (c.in.size() - 4 < size) {
			return;
		}
		std::string b = c.in.substr(4, size);
		c.in.erase(0, 4 + size);
		Req r;
		r.op = op;
		bool ok = false;
		switch (op) {
		case C_OPEN_SEAT:
		case C_CLOSE_SEAT:
		case C_DISABLE_SEAT:
		case C_PING: ok = size == 0; break;
		case C_CLOSE_DEVICE:
		case C_SWITCH_SESSION:
			ok = size == 4;
			if (ok) memcpy(&r.arg, b.data(), 4);
			break;
		case C_OPEN_DEVICE: {
			uint16_t pl = 0;
			if (size >= 2) memcpy(&pl, b.data(), 2);
			ok = size >= 2 && pl == size - 2 && pl > 0 && pl <= 256 && b[size - 1] == 0 && strlen(b.c_str() + 2) == (size_t)pl - 1;
			if (ok) r.path = b.c_str() + 2;
			break;
		}
		}
		if (!ok) {
			c.malformed = true;
			W->probe["client.malformed"]++;
			return;
		}
		r.fsgen = fsgen;
		r.srv_fault = c.srv->faults;
		r.tty_fault = c.srv->tty_faults;
		r.vt_fault = c.srv->vt_faults;
		r.vts.insert(W->fg);
		c.nreq++;
		c.fifo.push_back(r);
	}
}
void Oracle::on_recv(Proc *p, File *f, const char *d, size_t n, const std::vector<File *> &fds) {
	if (recv_hook) recv_hook(p, f, d, n, fds);
	if (p->is_daemon) {
		Conn *c = server_conn(p, f);
		if (!c) return;
		c->fds_in += (int)fds.size();
		feed(*c, d, n);
		return;
	}
	Conn *c = conn_of(f);
	if (c && c->cf == f) c->rcvd += n;
}
void Oracle::on_recv_eof(Proc *p, File *f) {
	if (!p->is_daemon) return;
	if (Conn *c = server_conn(p, f)) c->peer_left = true;
}

// ------------------------------------------------------------------ server -> client
void Oracle::on_send(Proc *p, File *f, const std::string &d, const std::vector<File *> &fds, long acc) {
	if (send_hook) send_hook(p, f, d, fds, acc);
	if (!p->is_daemon) {
		Conn *c = conn_of(f);
		if (c && c->cf == f && acc > 0) c->csent += acc;
		return;
	}
	Conn *c = server_conn(p, f);
	if (!c) return;
	bool late = c->hidden();
	size_t com = std::min(d.size(), c->unsent.size());
	if (d.compare(0, com, c->unsent, 0, com) != 0)
		violation("C14 C13 C15", "stream-changed", "connection %d: bytes still to be sent differ from those of the previous attempt", c->id);
	std::string fresh = d.size() > c->unsent.size() ? d.substr(c->unsent.size()) : "";
	c->peak = std::max(c->peak, std::max(d.size(), c->unsent.size()));
	c->fds_att = c->fds_sent;
	for (auto x : fds) c->fds_att.push_back(x->id);
	if (acc > 0) {
		if ((size_t)acc < d.size()) W->probe["lag.partial"]++;
		if (d.size() >= c->unsent.size()) c->unsent = d.substr(acc);
		else c->unsent = d.substr(acc) + c->unsent.substr(d.size());
		c->fds_sent = c->fds_att;
	} else if (d.size() > c->unsent.size()) c->unsent = d;
	c->parse += fresh;
	c->attempted += fresh.size();
	if (acc > 0) c->sent += acc;
	while (c->parse.size() >= 4 && !c->wire_bad) {
		uint16_t op, size;
		memcpy(&op, c->parse.data(), 2);
		memcpy(&size, c->parse.data() + 2, 2);
		if (c->parse.size() - 4 < size) {
			if (size > 252) {
				violation("C13", "bad-message", "connection %d: message with opcode %x announces %u bytes", c->id, op, size);
				c->wire_bad = true;
			}
			break;
		}
		std::string b = c->parse.substr(4, size);
		c->parse.erase(0, 4 + size);
		g_late = late;
		message(*c, op, b, c->attempted - c->parse.size());
		g_late = false;
	}
	// a descriptor never comes later than the message it belongs to
	size_t done = 0;
	while (done < c->opened_end.size() && c->opened_end[done] <= c->sent) done++;
	if (done > c->fds_sent.size())
		violation("C13 C15 C14", "descriptor-late", "connection %d: device reply %zu was sent but only %zu descriptors", c->id, done, c->fds_sent.size());
	note_state(*c->srv);
}
void Oracle::on_send_error(Proc *p, File *f, int) {
	if (!p->is_daemon) return;
	if (Conn *c = server_conn(p, f)) c->senderr = true;
}
Req *Oracle::find_req(Conn &c, int op, bool unacked) {
	for (auto &r : c.fifo)
		if (r.op == op && !(unacked && r.acked)) return &r;
	return nullptr;
}
bool Oracle::dead_or_excused(u32 id) {
	auto it = devfile.find(id);
	if (it == devfile.end()) return true;
	return !dev_live(it->second) || it->second->tainted;
}
void Oracle::check_dead(Conn &c, const char *when, const char *props) {
	for (u32 id : c.given)
		if (!dead_or_excused(id)) {
			File *f = devfile[id];
			violation(props, "device-alive", "connection %d (%s): %s still works %s", c.id, st_name[c.st], f->path.c_str(), when);
		}
}
// Does b stand in the way of another session being enabled?
bool Oracle::conflict(Conn &b) {
	if (b.closed || (b.st != ST_ENABLED && b.st != ST_PENDING)) return false;
	if (b.peer_left || b.malformed || b.senderr || b.recverr) return false;
	if (find_req(b, C_CLOSE_SEAT, false)) return false;
	if (b.st == ST_PENDING && find_req(b, C_DISABLE_SEAT, true)) return false;
	if (b.f && b.f->peer_gone) return false;
	if (b.hidden()) return false;
	return true;
}
static bool bad_kd(Srv &s, int v, int want) { return !s.kd_fault.count(v) && W->vt[v].kd != want; }
static bool bad_kb(Srv &s, int v, bool off) { return !s.kb_fault.count(v) && (W->vt[v].kb == K_OFF) != off; }
void Oracle::on_enable(Conn &c) {
	Srv &s = *c.srv;
	trace("oracle: connection %d ENABLE (was %s)", c.id, st_name[c.st]);
	c.evs.push_back({'E', c.attempted - c.parse.size()});
	bool acked = true;
	if (c.st == ST_PENDING) {
		if (Req *r = find_req(c, C_DISABLE_SEAT, true)) r->acked = true;
		else acked = false;
	} else if (c.st != ST_NEW && c.st != ST_DISABLED) acked = false;
	if (!acked)
		violation(c.st == ST_NONE || c.st == ST_CLOSED ? "C01 C13" : "C01", "enable-out-of-order", "connection %d is enabled while its session is %s", c.id, st_name[c.st]);
	for (auto b : s.conns) {
		if (b == &c) continue;
		std::string why;
		if (conflict(*b)) {
			// Its client may just be about to be disconnected
			if (close_justified(*b, why)) b->must_close = c.id;
			else violation("C01", "two-enabled", "connection %d is enabled while connection %d is %s", c.id, b->id, st_name[b->st]);
		}
		check_dead(*b, "when another session is enabled", "C02");
	}
	for (auto &kv : c.devs) {
		auto it = devfile.find(kv.second.file);
		if (it == devfile.end()) continue;
		File *f = it->second;
		if (f->type != F_DRM || f->node->type != N_DRM || !f->node->exist || f->tainted || kv.second.count <= 0) continue;
		if (!f->node->master && !f->node->tainted)
			violation("C03", "enable-without-master", "connection %d is enabled but its device %s is not DRM master", c.id, f->path.c_str());
	}
	if (!s.vt_bound) {
		Conn *q = s.queued;
		if (q && !q->closed && !q->hidden() && q->has_seat() && !find_req(*q, C_CLOSE_SEAT, false) && !q->peer_left && !q->malformed && !(q->f && q->f->peer_gone) && q != &c)
			violation("C06 C11", "wrong-switch-target", "connection %d (session %d) is enabled instead of session %d which was switched to", c.id, c.session, q->session);
		s.queued = nullptr;
	} else {
		if (c.vts.size() > 1 && !c.vt_amb && !s.vt_faults && s.kd_fault.empty() && s.kb_fault.empty() && srvs.size() == 1) {
			// Switched while the seat was opened: the terminal that was prepared tells which one it is
			std::set<int> cand;
			for (int v : c.vts) {
				bool other = false;
				for (auto b : s.conns) other |= b != &c && !b->closed && b->has_seat() && b->vts.count(v);
				if (!other && W->vt[v].kd == KD_GRAPHICS && W->vt[v].kb == K_OFF && W->vt[v].process) cand.insert(v);
			}
			if (cand.size() == 1) {
				c.vts = cand;
				W->probe["vt.resolved"]++;
			}
		}
		int v = c.vt();
		if (v > 0) s.vt_touched.insert(v);
		if (v > 0 && !s.vt_faults && (bad_kd(s, v, KD_GRAPHICS) || bad_kb(s, v, true) || !W->vt[v].process || W->vt[v].pid != s.pid))
			violation("C09", "vt-not-prepared", "connection %d is enabled on VT %d which has mode kd=%d kb=%d process=%d", c.id, v, W->vt[v].kd, W->vt[v].kb, W->vt[v].process);
	}
	c.st = ST_ENABLED;
	c.was_enabled = true;
}
void Oracle::on_disable(Conn &c) {
	Srv &s = *c.srv;
	trace("oracle: connection %d DISABLE (was %s)", c.id, st_name[c.st]);
	c.evs.push_back({'D', c.attempted - c.parse.size()});
	c.untold = false;
	if (c.st != ST_ENABLED)
		violation("C01", "disable-out-of-order", "connection %d is sent a disable notification while its session is %s", c.id, st_name[c.st]);
	check_dead(c, "when its disable notification is sent", "C02");
	if (!s.vt_bound) {
		Req *just = nullptr;
		Conn *target = nullptr;
		for (auto &r : c.fifo)
			if (r.op == C_SWITCH_SESSION && !r.used && r.arg > 0 && (r.arg != c.session || s.amb())) {
				for (auto b : s.conns)
					if (b->has_seat() && !b->closed && b->session == r.arg) target = b;
				if (target || s.amb()) {
					just = &r;
					break;
				}
			}
		if (!just) violation("C06", "disable-unasked", "connection %d (session %d) is disabled without a switch request", c.id, c.session);
		else {
			just->used = true;
			s.queued = s.amb() ? nullptr : target;
		}
	}
	c.st = ST_PENDING;
}
bool Oracle::open_error_ok(Conn &c, Req &r) {
	if (c.st != ST_ENABLED) return true;
	if (r.fsgen != fsgen || r.srv_fault != c.srv->faults || c.srv->dev_open_fail) return true;
	std::string canon;
	if (!path_ok(r.path, canon)) return true;
	Node *n = fs_lookup(canon);
	if (!n || !n->exist || (n->type != N_EVDEV && n->type != N_DRM && n->type != N_RENDER && n->type != N_HIDRAW)) return true;
	size_t open = 0, live = 0;
	for (auto &e : c.srv->p->fds) open += e.f != nullptr;
	if (open + 4 >= (size_t)c.srv->p->fd_limit) return true;
	for (auto &kv : c.devs) live += kv.second.count > 0;
	if (live >= 128) return true;
	return false;
}
void Oracle::reply(Conn &c, int op, const std::string &body, size_t end) {
	Srv &s = *c.srv;
	if (c.fifo.empty()) {
		violation("C13", "reply-unasked", "connection %d is sent reply %x but has no outstanding request", c.id, op);
		c.wire_bad = true;
		return;
	}
	Req r = c.fifo.front();
	static const int want[] = {0, S_SEAT_OPENED, S_SEAT_CLOSED, S_DEVICE_OPENED, S_DEVICE_CLOSED, S_SEAT_DISABLED, S_SESSION_SWITCHED, S_PONG};
	Reply rp;
	rp.op = op;
	rp.end = end;
	int err = 0;
	if (op == S_ERROR) {
		if (body.size() != 4) violation("C13", "bad-message", "connection %d: error reply of %zu bytes", c.id, body.size());
		else memcpy(&err, body.data(), 4);
		if (err <= 0) violation("C13", "bad-error-number", "connection %d: error reply with error number %d", c.id, err);
		rp.err = err;
	}
	if (op != want[r.op] && (op != S_ERROR || r.op == C_PING || r.op == C_CLOSE_SEAT || r.op == C_OPEN_SEAT) && !(op == S_ERROR && (r.op == C_CLOSE_SEAT || r.op == C_OPEN_SEAT))) {
		violation("C13", "wrong-reply", "connection %d: request %d is answered with %x", c.id, r.op, op);
		c.wire_bad = true;
		c.fifo.pop_front();
		return;
	}
	switch (op) {
	case S_SEAT_OPENED: {
		uint16_t l = 0;
		if (body.size() >= 2) memcpy(&l, body.data(), 2);
		if (body.size() < 3 || l != body.size() - 2 || body.back() != 0) violation("C13", "bad-message", "connection %d: malformed seat-opened reply", c.id);
		if (c.st != ST_NONE) violation("C10 C13", "opened-twice", "connection %d: seat opened while its session is %s", c.id, st_name[c.st]);
		c.st = ST_NEW;
		c.session = ++s.session_n;
		if (g_late) s.session_amb = true;
		c.vts = r.vts;
		c.vt_amb = r.vt_fault != s.vt_faults || s.vt_faults;
		if (s.vt_bound) {
			for (auto b : s.conns) {
				if (b == &c || b->closed || b->overflow() || b->peer_left || b->malformed || b->senderr || b->recverr || (b->f && b->f->peer_gone) || find_req(*b, C_CLOSE_SEAT, false)) continue;
				if (b->st == ST_ENABLED)
					violation("C10", "opened-beside-enabled", "connection %d opened the seat while connection %d is enabled", c.id, b->id);
				if (b->has_seat() && b->vt() > 0 && b->vt() == c.vt())
					violation("C10", "two-on-one-vt", "connections %d and %d both belong to VT %d", b->id, c.id, c.vt());
			}
		}
		break;
	}
	case S_SEAT_CLOSED:
		check_dead(c, "after the seat was closed", "C02");
		if (!c.has_seat()) violation("C13", "closed-without-seat", "connection %d: close succeeds without a seat", c.id);
		c.st = ST_CLOSED;
		c.devs.clear();
		break;
	case S_DEVICE_OPENED: {
		int id = 0;
		if (body.size() != 4) violation("C13", "bad-message", "connection %d: malformed device reply", c.id);
		else memcpy(&id, body.data(), 4);
		rp.id = id;
		size_t k = c.nopened++;
		c.opened_end.push_back(end);
		if (k >= c.fds_att.size()) {
			violation("C13 C15", "no-descriptor", "connection %d: device reply without a descriptor", c.id);
			break;
		}
		u32 fid = c.fds_att[k];
		rp.file = fid;
		auto it = devfile.find(fid);
		if (c.st != ST_ENABLED)
			violation("C04", "opened-while-not-enabled", "connection %d is given %s while its session is %s", c.id, r.path.c_str(), st_name[c.st]);
		if (it == devfile.end()) {
			violation("C04", "not-a-device", "connection %d: the descriptor for %s is not a device opened by the daemon", c.id, r.path.c_str());
			break;
		}
		File *f = it->second;
		auto pre = [&](const char *x) { return f->path.compare(0, strlen(x), x) == 0; };
		if (!pre("/dev/dri/") && !pre("/dev/input/event") && !pre("/dev/hidraw"))
			violation("C04", "path-not-allowed", "connection %d is given %s for %s", c.id, f->path.c_str(), r.path.c_str());
		if (f->via_link) violation("C04", "via-symlink", "connection %d is given %s which was reached through a symbolic link", c.id, f->path.c_str());
		if (r.fsgen == fsgen) {
			std::string canon;
			if (k_realpath(r.path, canon, true) < 0 || canon != f->path)
				violation("C04 C18", "wrong-device", "connection %d asked for %s and is given %s", c.id, r.path.c_str(), f->path.c_str());
		}
		bool works = f->type == F_DRM ? (f->node->type == N_RENDER || f->node->master) : !f->revoked;
		bool foreign = f->type == F_DRM && srvs.size() > 1; // another daemon may have held it
		if (!works && !f->tainted && !foreign && f->node->exist)
			violation("C03", "opened-dead-device", "connection %d is given %s which does not work", c.id, f->path.c_str());
		size_t distinct = 0;
		for (auto &kv : c.devs) {
			distinct++;
			if (kv.first == id || !works || f->tainted) continue;
			auto o = devfile.find(kv.second.file);
			if (o == devfile.end() || o->second->tainted) continue;
			bool oworks = o->second->type == F_DRM ? o->second->node->type == N_RENDER || dev_live(o->second) : dev_live(o->second);
			if (kv.second.path == f->path && oworks)
				violation("C05", "not-shared", "connection %d: %s is already open as id %d but gets id %d", c.id, f->path.c_str(), kv.first, id);
		}
		auto h = c.devs.find(id);
		if (h != c.devs.end()) {
			if (h->second.path != f->path)
				violation("C05", "id-reused", "connection %d: id %d names %s and %s", c.id, id, h->second.path.c_str(), f->path.c_str());
			else if (h->second.file != fid)
				violation("C05", "id-other-file", "connection %d: id %d is given another description of %s", c.id, id, f->path.c_str());
			h->second.count++;
		} else {
			if (distinct >= 128) violation("C05", "too-many-devices", "connection %d holds more than 128 devices", c.id);
			if (id <= 0) violation("C05", "bad-id", "connection %d: device id %d", c.id, id);
			c.devs[id] = {f->path, 1, fid, 0};
		}
		c.given.insert(fid);
		f->given = true;
		break;
	}
	case S_DEVICE_CLOSED: {
		if (!body.empty()) violation("C13", "bad-message", "connection %d: device-closed reply of %zu bytes", c.id, body.size());
		auto h = c.devs.find(r.arg);
		if (h == c.devs.end()) {
			violation("C05", "closed-unknown", "connection %d: closing unknown id %d succeeds", c.id, r.arg);
			break;
		}
		if (--h->second.count == 0) {
			if (!dead_or_excused(h->second.file))
				violation("C02", "device-alive", "connection %d: %s still works after its last handle was closed", c.id, h->second.path.c_str());
			c.devs.erase(h);
		} else {
			auto it = devfile.find(h->second.file);
			if (it == devfile.end() || (c.st == ST_ENABLED && (it->second->type == F_EVDEV || it->second->type == F_HIDRAW) && it->second->revoked && false))
				violation("C05", "closed-early", "connection %d: %s is closed with %d handles left", c.id, h->second.path.c_str(), h->second.count);
		}
		break;
	}
	case S_SESSION_SWITCHED: {
		if (!body.empty()) violation("C13", "bad-message", "connection %d: session-switched reply of %zu bytes", c.id, body.size());
		bool was = c.st == ST_ENABLED || r.used;
		bool ok = r.arg > 0;
		if (!s.vt_bound && ok && r.arg != c.session && !r.used && !s.amb()) ok = false;
		if (!c.has_seat()) ok = false;
		// the session may have been enabled again (acknowledged) before the reply
		if (!was || !ok)
			violation("C06", "switch-accepted", "connection %d (%s, session %d): switch to %d succeeds", c.id, st_name[c.st], c.session, r.arg);
		break;
	}
	case S_SEAT_DISABLED:
		if (!body.empty()) violation("C13", "bad-message", "connection %d: seat-disabled reply of %zu bytes", c.id, body.size());
		if (r.acked) break;
		if (c.st != ST_PENDING) violation("C01 C13", "ack-accepted", "connection %d: acknowledgement succeeds while its session is %s", c.id, st_name[c.st]);
		else c.st = ST_DISABLED;
		break;
	case S_PONG:
		if (!body.empty()) violation("C13", "bad-message", "connection %d: pong of %zu bytes", c.id, body.size());
		c.npong++;
		break;
	case S_ERROR:
		switch (r.op) {
		case C_OPEN_DEVICE:
			if (!open_error_ok(c, r))
				violation("C03 C05", "open-refused", "connection %d: opening %s fails with error %d for no reason", c.id, r.path.c_str(), err);
			else if (c.st == ST_ENABLED && r.fsgen == fsgen && r.srv_fault == s.faults && !s.dev_open_fail && err != EMFILE) {
				std::string canon;
				size_t n = 0;
				bool have = false;
				for (auto &kv : c.devs) n++, have |= path_ok(r.path, canon) && kv.second.path == canon;
				Node *nd = path_ok(r.path, canon) ? fs_lookup(canon) : nullptr;
				if (n >= 128 && !have && nd && nd->exist)
					violation("C05", "wrong-limit-error", "connection %d: the device beyond the limit is refused with error %d", c.id, err);
			}
			break;
		case C_CLOSE_DEVICE:
			if (c.has_seat() && c.devs.count(r.arg))
				violation("C05", "close-refused", "connection %d: closing open device %d fails with error %d", c.id, r.arg, err);
			break;
		case C_SWITCH_SESSION: {
			if (c.st != ST_ENABLED || r.arg <= 0 || s.tty_faults) break; // also one before: seatd may not know the VT
			bool exists = r.arg == c.session;
			for (auto b : s.conns) exists |= b->has_seat() && !b->closed && b->session == r.arg;
			if (s.vt_bound ? r.arg <= 12 : exists && !s.amb())
				violation("C06", "switch-refused", "connection %d (session %d): valid switch to %d fails with error %d", c.id, c.session, r.arg, err);
			break;
		}
		case C_DISABLE_SEAT:
			if (c.st == ST_PENDING || r.acked)
				violation("C13 C01", "ack-refused", "connection %d: acknowledgement of a disable fails with error %d", c.id, err);
			break;
		}
		if (r.used) violation("C06", "switch-refused", "connection %d: switch to %d took effect but fails with error %d", c.id, r.arg, err);
		break;
	}
	if (r.op == C_OPEN_DEVICE) s.dev_open_fail = 0;
	if (op != S_PONG) c.replies.push_back(rp);
	c.fifo.pop_front();
}
void Oracle::message(Conn &c, int op, const std::string &body, size_t end) {
	trace("oracle: connection %d <- %x (%zu bytes)", c.id, op, body.size());
	if (op == S_ENABLE_SEAT || op == S_DISABLE_SEAT) {
		if (!body.empty()) violation("C13", "bad-message", "connection %d: notification of %zu bytes", c.id, body.size());
		if (op == S_ENABLE_SEAT) on_enable(c);
		else on_disable(c);
		return;
	}
	if (op == S_ERROR || (op >= S_SEAT_OPENED && op <= S_SEAT_DISABLED)) {
		reply(c, op, body, end);
		return;
	}
	violation("C13", "bad-message", "connection %d: message with unknown opcode %x", c.id, op);
	c.wire_bad = true;
}

// ------------------------------------------------------------------ disconnects
bool Oracle::close_justified(Conn &c, std::string &props) {
	Srv &s = *c.srv;
	props = "C12 C13";
	if (s.exited || s.term || s.p->crashed) return true;
	if (c.peer_left || (c.f && (c.f->peer_gone || c.f->shut_rd || c.f->shut_wr || c.f->so_err))) return true;
	if (c.malformed || c.oversize || c.senderr || c.recverr || c.wire_bad || c.fds_in >= 64) return true;
	if (c.overflow()) {
		W->probe["lag.overflow_close"]++;
		return true;
	}
	if (c.in_total == 0 && s.faults != c.fault_at_accept) return true;
	for (auto &r : c.fifo) {
		if (r.op == C_OPEN_SEAT) {
			if (c.st != ST_NONE) return true;
			if (!s.vt_bound) {
				props = "C13 C12";
				continue;
			}
			props = "C10 C13 C12";
			if (r.tty_fault != s.tty_faults) return true;
			for (auto b : s.conns) {
				if (b == &c || b->closed || !b->has_seat()) continue;
				if (b->st == ST_ENABLED || b->hidden()) return true;
				if (b->vt_amb) return true;
				for (int v : b->vts)
					if (r.vts.count(v)) return true;
			}
		} else if (r.op != C_PING && !c.has_seat()) return true;
	}
	if (!c.unsent.empty()) props = "C14 C12 C13";
	return false;
}
void Oracle::on_sock_release(File *f) {
	Conn *c = conn_of(f);
	if (!c) return;
	if (c->cf == f) {
		c->cf = nullptr;
		c->cleft = true;
		c->cleft_lost = f->peer_gone || f->shut_rd || f->so_err;
		return;
	}
	if (c->f != f) return;
	trace("oracle: connection %d closed by the server", c->id);
	std::string props;
	if (!c->fake && !close_justified(*c, props))
		violation(props.c_str(), "unjustified-disconnect", "connection %d (%s) is disconnected although it did nothing wrong", c->id, st_name[c->st]);
	if (c->st == ST_NONE && find_req(*c, C_OPEN_SEAT, false)) c->srv->session_amb = true;
	c->closed = true;
	c->f = nullptr;
	c->devs.clear();
}

// ------------------------------------------------------------------ devices and terminals
void Oracle::on_open(Proc *p, const std::string &path, File *f, int, int r) {
	if (!p->is_daemon) {
		if (f && is_dev(f)) devfile[f->id] = f;
		return;
	}
	Srv *s = srv_of(p);
	if (f && f->type == F_TTY) return;
	if (path.compare(0, 8, "/dev/tty") == 0) {
		if (!f) s->tty_faults++, s->vt_faults++; // also for want of permission
		return;
	}
	if (!f) {
		s->dev_open_fail++;
		return;
	}
	if (is_dev(f)) devfile[f->id] = f;
	bool ok = false;
	for (auto c : s->conns)
		if (!c->closed && (c->st == ST_ENABLED || c->hidden() || c->senderr || (c->f && (c->f->peer_gone || c->f->shut_wr))) && find_req(*c, C_OPEN_DEVICE, false)) ok = true;
	if (!ok && f->type != F_NULL)
		violation("C04", "opened-unasked", "the daemon opens %s for no enabled session", path.c_str());
	if (!is_dev(f) && f->type != F_NULL) violation("C04", "path-not-allowed", "the daemon opens %s", path.c_str());
	else if (f->type != F_NULL) {
		auto pre = [&](const char *x) { return f->path.compare(0, strlen(x), x) == 0; };
		if (!pre("/dev/dri/") && !pre("/dev/input/event") && !pre("/dev/hidraw")) violation("C04", "path-not-allowed", "the daemon opens %s", f->path.c_str());
	}
	(void)r;
}
void Oracle::on_dev_ioctl(Proc *, File *, unsigned long, int, bool) {}
void Oracle::on_dev_release(File *f) {
	devfile.erase(f->id);
	for (auto c : conns) c->given.erase(f->id);
}
void Oracle::on_tty_ioctl(Proc *p, int vt, unsigned long req, long arg, int r, bool inj) {
	if (!p->is_daemon) return;
	Srv *s = srv_of(p);
	if (inj) {
		s->tty_faults++;
		// failing to set the mode of keyboard or screen has no bearing on switching
		if (req == KDSETMODE) s->kd_fault.insert(vt);
		else if (req == KDSKBMODE) s->kb_fault.insert(vt);
		else s->vt_faults++;
		return;
	}
	if (r == 0 && req == KDSETMODE) s->kd_fault.erase(vt);
	if (r == 0 && req == KDSKBMODE) s->kb_fault.erase(vt);
	if (r == 0 && (req == KDSETMODE || req == KDSKBMODE || req == VT_SETMODE)) s->vt_touched.insert(vt);
	// any nonzero acknowledgement grants a pending release, that of an acquire too
	if (req == VT_RELDISP && r == 1) {
		for (auto c : s->conns) {
			if (c->closed || c->senderr || c->peer_left || c->malformed) continue;
			if (c->vt() != vt || s->vt_faults) continue;
			if (c->st == ST_ENABLED && c->overflow()) c->untold = true;
			else if (c->st == ST_ENABLED)
				violation("C07 C02 C14", "released-while-enabled", "VT %d is released while connection %d was not told to disable", vt, c->id);
			check_dead(*c, "when its VT is released", "C02 C07");
		}
	}
	if (req == VT_RELDISP && arg == 0 && r == 0) violation("C07", "release-refused", "the daemon refuses to release VT %d", vt);
	if (req == VT_ACTIVATE) {
		bool ok = false;
		for (auto c : s->conns)
			if (!c->closed && (c->st == ST_ENABLED || c->hidden() || c->senderr || (c->f && c->f->peer_gone)))
				for (auto &q : c->fifo) ok |= q.op == C_SWITCH_SESSION && q.arg == (int)arg;
		if (!ok) violation("C06 C08", "switch-unasked", "the daemon switches to VT %ld without a request from the enabled session", arg);
	}
}
void Oracle::on_vt_switched(int, int to) {
	for (auto c : conns)
		for (auto &r : c->fifo) r.vts.insert(to);
}
void Oracle::on_vt_release_req(int vt, int) {
	Proc *p = proc_find(W->vt[vt].pid);
	if (p) W->vt[vt].rel_step = p->nsys;
	W->vt[vt].rel_tainted = false;
}

// ------------------------------------------------------------------ idle checks
void Oracle::note_state(Srv &s) {
	u64 h = W->fg * 31 + s.vt_bound;
	std::vector<u64> v;
	for (auto c : s.conns) {
		if (c->closed) continue;
		u64 x = c->st * 7 + !c->unsent.empty();
		x = x * 5 + std::min<size_t>(c->fifo.size(), 4);
		x = x * 4 + std::min<size_t>(c->devs.size(), 3);
		x = x * 17 + (s.vt_bound ? (c->vt() + 1) : 0);
		int live = 0;
		for (u32 id : c->given) live += !dead_or_excused(id);
		x = x * 3 + std::min(live, 2);
		v.push_back(x);
	}
	std::sort(v.begin(), v.end());
	for (u64 x : v) h = mix64(h ^ x);
	if (s.vt_bound)
		for (int i = 1; i < 8; i++) h = mix64(h ^ (W->vt[i].kd * 2 + W->vt[i].process) ^ ((u64)(W->vt[i].newvt + 1) << 8));
	W->states.insert(h);
}
void Oracle::on_poll_enter(Proc *p, bool idle_) {
	if (pollenter_hook) pollenter_hook(p, idle_);
	if (!p->is_daemon) return;
	Srv &s = *srv_of(p);
	for (auto c : s.conns) {
		c->peak = c->unsent.size(), c->lagged = !c->unsent.empty();
		if (c->must_close >= 0 && !c->closed) violation("C01", "two-enabled", "connection %d was enabled while connection %d is %s", c->must_close, c->id, st_name[c->st]);
		c->must_close = -1;
	}
	for (int v = 1; v < 16; v++)
		if (W->vt[v].process && W->vt[v].newvt >= 0 && W->vt[v].pid == p->pid && !s.vt_faults && p->nsys - W->vt[v].rel_step > 6000)
			violation("C07", "release-late", "the release of VT %d is not granted after %llu system calls", v, (unsigned long long)(p->nsys - W->vt[v].rel_step));
	if (idle_) idle(s);
}
void Oracle::idle(Srv &s) {
	Proc *p = s.p;
	s.idles++;
	s.ready = true;
	size_t nfds = 0;
	for (auto &e : p->fds) nfds += e.f != nullptr;
	bool any = false, pend_rel = false, pending = false;
	Conn *enabled = nullptr;
	for (auto c : s.conns) {
		if (c->closed) continue;
		any = true;
		if (!c->f) continue;
		if (c->malformed) violation("C12", "bad-client-kept", "connection %d violated the protocol but is not disconnected", c->id);
		else if (!c->fifo.empty() && c->lagged) W->probe["lag.unanswered"]++;
		if (!c->malformed && !c->fifo.empty() && !c->hidden()) violation("C13 C12", "request-unanswered", "connection %d: request %d is not answered", c->id, c->fifo.front().op);
		if (c->f->rxbytes && !c->senderr) violation("C12 C13", "client-starved", "connection %d: %zu bytes are never read", c->id, c->f->rxbytes);
		if (c->f->peer_gone) violation("C12 C28", "hangup-missed", "connection %d: the client is gone but the connection is kept", c->id);
		if (c->untold && c->unsent.empty() && !c->senderr && !c->recverr)
			violation("C14 C07", "notification-lost", "connection %d reads everything but is neither told to disable nor disconnected", c->id);
		if (!c->unsent.empty() && !c->senderr && (file_poll(c->f) & 0x4 /*POLLOUT*/))
			violation("C14", "output-stuck", "connection %d: %zu bytes are not sent although the client reads", c->id, c->unsent.size());
		if (c->nopened != c->fds_att.size() && c->unsent.empty())
			violation("C13 C15 C04", "extra-descriptor", "connection %d: %zu descriptors for %zu device replies", c->id, c->fds_att.size(), c->nopened);
		if (c->st == ST_PENDING) pending = true;
		if (c->senderr || c->overflow()) pending = true; // its state is not known
		if (c->st == ST_ENABLED) enabled = c;
		else if (!c->hidden()) check_dead(*c, "although its session is not enabled", "C02");
	}
	for (auto c : s.conns)
		if (c->closed) check_dead(*c, "although its client is gone", "C02 C28");
	for (int v = 1; v < 16; v++)
		if (W->vt[v].process && W->vt[v].newvt >= 0 && W->vt[v].pid == p->pid) {
			pend_rel = true;
			if (!s.vt_faults) violation("C07", "release-missing", "the daemon waits while the kernel wants VT %d released", v);
		}
	if (W->want_vt > 0) pend_rel = true;
	if (!s.vt_bound) {
		if (!pending && !enabled)
			for (auto c : s.conns)
				if (!c->closed && c->has_seat()) {
					violation("C11 C06 C14", "nobody-enabled", "connection %d (session %d, %s) waits but no session is enabled", c->id, c->session, st_name[c->st]);
					break;
				}
	} else if (!s.vt_faults && !pend_rel) {
		Conn *here = nullptr;
		bool amb = false;
		for (auto c : s.conns) {
			if (c->closed || !c->has_seat()) continue;
			if (c->vt() < 0) amb = true;
			if (c->vt() == W->fg) here = c;
		}
		if (!pending && !amb) {
			if (here && here->st != ST_ENABLED)
				violation("C08 C11 C14", "foreground-not-enabled", "VT %d is in the foreground but its session (connection %d) is %s", W->fg, here->id, st_name[here->st]);
			if (enabled && enabled->vt() != W->fg)
				violation("C08", "background-enabled", "connection %d of VT %d is enabled while VT %d is in the foreground", enabled->id, enabled->vt(), W->fg);
		}
		if (!amb)
			for (auto c : s.conns) {
				int v = c->vt();
				if (v < 0) continue;
				VT &t = W->vt[v];
				if (!c->closed && c->has_seat() && c->was_enabled && !c->senderr && !c->hidden()) {
					if (bad_kd(s, v, KD_GRAPHICS) || bad_kb(s, v, true) || !t.process)
						violation("C09", "vt-disturbed", "connection %d (%s) has VT %d in mode kd=%d kb=%d process=%d", c->id, st_name[c->st], v, t.kd, t.kb, t.process);
				}
				if (c->closed || c->st == ST_CLOSED) {
					bool other = false;
					for (auto b : s.conns) other |= !b->closed && b->has_seat() && (b->was_enabled || b->hidden()) && b->vt() == v;
					if (!other && (bad_kd(s, v, KD_TEXT) || bad_kb(s, v, false)))
						violation("C09", "vt-not-restored", "the session of VT %d is gone but its mode is kd=%d kb=%d", v, t.kd, t.kb);
				}
			}
	}
	if (!any && !s.builtin) {
		if (!s.have_base) {
			s.have_base = true;
			s.base_allocs = p->allocs;
			s.base_fds = nfds;
		} else {
			if (nfds != s.base_fds) violation("C28", "descriptor-leak", "without clients the daemon holds %zu descriptors, %zu before", nfds, s.base_fds);
			if (p->allocs > s.base_allocs) violation("C28", "memory-leak", "without clients the daemon holds %ld allocations, %ld before", p->allocs, s.base_allocs);
		}
	}
	bool backlog = false; // may hold descriptors that are still to be passed
	for (auto c : s.conns) backlog |= !c->closed && !c->unsent.empty();
	if (!backlog) for (auto &x : devfile) {
		File *f = x.second;
		bool held = false;
		for (auto &e : p->fds) held |= e.f == f;
		if (!held) continue;
		bool owned = s.inherited.count(f->id) > 0;
		for (auto c : s.conns)
			if (!c->closed)
				for (auto &kv : c->devs) owned |= kv.second.file == f->id;
		if (!owned) violation("C28 C05", "device-leak", "the daemon keeps %s open for nobody", f->path.c_str());
	}
	note_state(s);
}
// The world does not move any more and nothing is injected.
void Oracle::quiescent() {
	for (auto s : srvs) {
		if (s->exited) continue;
		if (s->p->st == P_BLOCKED && s->ready && !s->p->stopped) idle(*s);
	}
}

// ------------------------------------------------------------------ processes
void Oracle::on_fault(Proc *p, Kind k) {
	if (fault_hook) fault_hook(p, k);
	if (k != K_EINTR && k != K_SHORT_READ && k != K_SHORT_WRITE && k != K_SPURIOUS_POLL) p->nfaults++;
	if (k == K_BUS) bus_faults++;
	if (!p->is_daemon) return;
	Srv *s = srv_of(p);
	if (k != K_EINTR && k != K_SHORT_READ && k != K_SHORT_WRITE && k != K_EAGAIN_SEND && k != K_SPURIOUS_POLL) s->faults++;
	if (!s->ready) s->start_fault = true;
	if (k == K_RECV_ERR || k == K_SEND_ERR)
		for (auto c : s->conns) c->recverr = true; // which one is not known here; only such runs are lenient
}
void Oracle::on_signal(Proc *p, int sig) {
	if (signal_hook) signal_hook(p, sig);
	if (p->is_daemon && (sig == SIGTERM || sig == SIGINT)) srv_of(p)->term = true;
}
void Oracle::on_realpath(Proc *, const std::string &, const std::string &, int) {}
void Oracle::on_fork(Proc *p, Proc *c) {
	if (p->img == IMG_L) tries.push_back({p->pid, "builtin"});
	if (c->is_builtin) {
		Srv *s = srv_of(c);
		for (auto &e : c->fds)
			if (e.f) s->inherited.insert(e.f->id);
	}
}
void Oracle::on_close_bad(Proc *p, int fd) {
	if (p->img == IMG_S || p->img == IMG_L || p->img == IMG_W)
		violation(p->is_daemon ? "C28 C23" : p->img == IMG_L ? "C20 C25" : "C22", "bad-close", "%s closes descriptor %d which is not open", p->name.c_str(), fd);
}
void Oracle::on_close(Proc *p, int fd, File *) {
	auto it = app_fds.find({p->pid, fd});
	if (it == app_fds.end()) return;
	if (p->in_call) violation("C20 C18 C25", "app-descriptor-closed", "libseat closes descriptor %d which the application owns in %s", fd, p->in_call);
	app_fds.erase(it);
}
void Oracle::on_exit(Proc *p, int status) {
	if (exit_hook) exit_hook(p, status);
	if (p->is_daemon) {
		Srv *s = srv_of(p);
		bool ended = s->term || s->builtin; // on its way out with everything cleaned up
		for (auto c : s->conns) ended &= c->closed;
		// a signal from the environment that comes when a failed start is being undone
		ended |= WIFSIGNALED(status) && (WTERMSIG(status) == SIGUSR1 || WTERMSIG(status) == SIGUSR2) && p->nfaults && s->conns.empty();
		if (p->crashed)
			violation("@daemon", "daemon-crash", "the daemon dies: %s", last_assert.c_str());
		else if (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL && WTERMSIG(status) != SIGTERM && WTERMSIG(status) != SIGINT && !ended)
			violation("@daemon", "daemon-killed", "the daemon is killed by signal %d", WTERMSIG(status));
		else if (WIFEXITED(status) && !s->term && s->ready && !s->builtin)
			violation("C12 C26", "daemon-exit", "the daemon exits with status %d unasked", WEXITSTATUS(status));
		else if (WIFEXITED(status) && s->builtin && s->ready) {
			bool left = false;
			left |= s->conns.empty(); // its client was gone before it said anything
			for (auto c : s->conns) left |= c->peer_left || c->malformed || c->closed || (c->f && c->f->peer_gone);
			if (!left && !s->term) violation("C23 C12", "helper-exit", "the built-in daemon exits with status %d while its application lives", WEXITSTATUS(status));
		}
		if (WIFEXITED(status) && s->ready) {
			long own = p->allocs;
			if (own > 0) violation("C28", "memory-leak", "%ld allocations are left when the daemon exits", own);
			if (s->vt_bound && !s->vt_faults)
				for (auto c : s->conns) {
					int v = c->vt();
					bool taken = false; // by the daemon of another seat since
					for (auto o : srvs) taken |= o != s && !o->exited && o->vt_touched.count(v);
					if (v > 0 && !taken && (bad_kd(*s, v, KD_TEXT) || bad_kb(*s, v, false)))
						violation("C09 C23", "vt-not-restored", "the daemon exits but VT %d has mode kd=%d kb=%d", v, W->vt[v].kd, W->vt[v].kb);
				}
			for (auto c : s->conns) check_dead(*c, "when the daemon exits", "C02 C23");
		}
		s->exited = true;
	} else if (p->crashed && p->img == IMG_L) violation("@lib", "app-crash", "libseat aborts the application: %s", last_assert.c_str());
	else if (p->crashed && p->img == IMG_S) violation("C15 C26", "unit-crash", "%s: %s", p->name.c_str(), last_assert.c_str());
	else if (p->crashed && p->img == IMG_W) violation("C22", "launch-crash", "seatd-launch aborts: %s", last_assert.c_str());
	else if (p->img == IMG_L && WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL && WTERMSIG(status) != SIGTERM)
		violation("@lib", "app-killed", "libseat gets the application killed by signal %d", WTERMSIG(status));
}
void Oracle::on_exec(Proc *p, const std::string &path, const std::vector<std::string> &argv) {
	if (exec_hook) exec_hook(p, path, argv);
}
void Oracle::on_kill(Proc *p, int pid, int sig, bool reaped) {
	if (kill_hook) kill_hook(p, pid, sig, reaped);
}
void Oracle::on_fs(Proc *p, const char *what, const std::string &path, int v) {
	if (!strcmp(what, "connect") && p->img == IMG_L) tries.push_back({p->pid, "seatd:" + path});
	if (fs_hook) fs_hook(p, what, path, v);
}
void Oracle::on_pipe_write(Proc *p, File *f, const char *d, size_t n) {
	if (pipe_hook) pipe_hook(p, f, d, n);
}
void Oracle::on_bus(const char *, bool failed) {
	bus_calls++;
	if (failed) bus_faults++;
}
void Oracle::on_logind_switch(int n) {
	if (switch_hook) switch_hook(n);
}
void Oracle::on_logind_take(int, int) {}
void Oracle::on_logind_release(int, int) {}
void Oracle::on_logind_complete(int maj, int min, bool pend) {
	if (complete_hook) complete_hook(maj, min, pend);
}
