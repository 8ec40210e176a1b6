// Drives one simulated run from a plan and applies the end-of-phase checks.
#include "game.h"
#include "units.h"
#include "profiles.h"
#include <signal.h>
#include <string.h>
#include <sys/wait.h>

static bool alive(Proc *p) { return p && p->st != P_ZOMBIE && p->st != P_DEAD; }
static const u64 MAIN_STEPS = 60000, SETTLE_STEPS = 80000;

// The world has to come to rest once faults stop: who does not let it?
bool settle(const char *when) {
	std::map<int, u64> n0;
	for (auto p : W->procs) n0[p->pid] = p->nsys;
	run_world(SETTLE_STEPS);
	if (W->stop) return false;
	if (world_quiescent()) return true;
	Proc *worst = nullptr;
	u64 most = 0;
	for (auto p : W->procs) {
		u64 d = p->nsys - n0[p->pid];
		if (d > most) most = d, worst = p;
	}
	if (!worst) harness_error("no progress %s", when);
	const char *props = worst->is_daemon ? "C12 C23 C26 C07" : worst->img == IMG_L ? "C19 C17 C25" : worst->img == IMG_W ? "C22" : worst->img == IMG_S ? "C15 C26" : nullptr;
	if (!props) harness_error("the world does not settle %s because of %s", when, worst->name.c_str());
	violation(props, "livelock", "%s: %s keeps running without getting anywhere (%llu system calls)", when, worst->name.c_str(), (unsigned long long)most);
	return false;
}
static void quiet_checks() {
	if (W->stop) return;
	orc().quiescent();
	app_checks_quiescent();
}
static bool clients_alive() {
	for (auto c : G->clis)
		if (alive(c->p)) return true;
	return false;
}
static void end_checks(bool asked) {
	Proc *d = G->daemon;
	if (!d) return;
	if (asked && alive(d)) violation("C21 C12 C09", "does-not-exit", "seatd does not exit after %s", "a termination signal");
	if (!alive(d) && !W->plan->get("daemonkilled") && WIFEXITED(d->exit_status)) {
		auto it = W->fs.find(G->sock);
		if (it != W->fs.end()) violation("C21", "socket-left", "seatd exited but %s is still there", G->sock.c_str());
		if (asked && orc().srvs.size() && orc().srv_of(d)->ready && !orc().srv_of(d)->start_fault && WEXITSTATUS(d->exit_status) != 0 && d->nfaults == 0)
			violation("C21", "exit-status", "seatd exits with status %d after a termination signal", WEXITSTATUS(d->exit_status));
	}
}
static void term(int sig) {
	Proc *d = G->daemon;
	if (!alive(d)) return;
	if (d->act[sig].h == SIG_DFL) return;
	post_signal(d, sig);
}
static void drive(Plan &p) {
	G = new Game;
	setup_fs();
	if (p.get("sockcap")) W->sock_cap = (size_t)p.get("sockcap");
	if (p.get("gsock")) G->sock = xsock_path((int)p.get("gsock")).substr(0, 107);
	if (long k = p.get("sockfile")) node_new("/run/seatd.sock", k == 1 ? N_SOCK : N_REG, 0777, 0, 0);
	if (p.get("fake")) G->fake = spawn_fake();
	else if (p.get("daemon", 1)) {
		static const char *L[] = {"silent", "error", "info", "debug"};
		long l = W->log_pass == 1 ? 3 : p.get("dlvl", -1);
		std::vector<std::string> a;
		if (l >= 0) a = {"-l", L[l & 3]};
		G->daemon = spawn_daemon(1, a, p.get("vt", 1));
	}
	if (p.get("logind")) {
		long st = p.get("lstate");
		logind().active = p.get("lactive", 1);
		logind().present = !(st == 1);
		logind().has_pid_session = !(st & 2);
		logind().has_display = !(st & 4);
		logind().has_seat = !(st == 8);
		if (st & 16) logind().controller = &logind(); // someone else controls the session
	}
	if (G->daemon) G->daemon->faultable = p.get("dfault", 1);
	std::set<int> actors;
	for (auto &o : p.ops)
		if (o.actor >= 10 && o.actor < 100) actors.insert(o.actor);
	for (int a : actors) spawn_client(a);
	spawn_env();
	run_world(MAIN_STEPS);
	if (W->stop) return;
	if (world_quiescent()) {
		W->probe["main.quiescent"]++;
		app_checks_blocked();
	} else W->probe["main.budget"]++;
	// faults stop
	W->faults_on = false;
	for (auto q : W->procs) q->stopped = false;
	G->phase = PH_HEAL;
	if (!settle("after faults stopped")) return;
	quiet_checks();
	if (W->stop) return;
	if (p.get("tour") && p.get("vt", 1)) {
		G->phase = PH_TOUR;
		if (!settle("before the tour")) return;
		int step = (int)p.get("tour");
		for (int i = 0; i < 5; i++) {
			vt_set_console(1 + (i * step) % 4);
			if (!settle("after a VT switch")) return;
			W->probe["tour.switch"]++;
			quiet_checks();
			if (W->stop) return;
		}
	}
	int fin = (int)p.get("final");
	if (fin == 1) {
		term(SIGTERM);
		if (!settle("after SIGTERM")) return;
		end_checks(true);
		quiet_checks();
	}
	G->phase = PH_END;
	if (!settle("after the clients left")) return;
	bool idle = false; // waiting for an event without a limit is all right while the daemon lives
	for (auto c : G->clis)
		if (alive(c->p) && c->cls == CLS_APP && c->p->in_call && !strcmp(c->p->in_call, "dispatch") && app_may_wait(c)) {
			post_signal(c->p, SIGKILL);
			idle = true;
		}
	if (idle && !settle("after the clients left")) return;
	if (clients_alive()) {
		for (auto c : G->clis)
			if (alive(c->p)) {
				if (c->cls == CLS_APP) violation("C19 C18", "call-hangs", "%s blocks for ever", c->p->in_call ? c->p->in_call : "the application");
				else harness_error("client %d does not leave", c->actor);
			}
	}
	if (G->clis.size()) quiet_checks();
	if (W->stop) return;
	if (fin != 1) {
		term(fin == 2 ? SIGINT : SIGTERM);
		if (!settle("after the termination signal")) return;
	}
	end_checks(true);
}
static void run_once(Plan &p, bool replay, const std::map<DecKey, u32> *dec, const std::string &prop, int pass) {
	world_init(&p, replay);
	W->log_pass = pass;
	if (dec) W->dec = *dec;
	W->mon = new Oracle;
	W->stop_prop = prop;
	logind_reset();
	next_actor_id = 100;
	last_assert.clear();
	exec_reg.clear();
	delete G;
	G = nullptr;
	wire_hooks();
	if (p.profile == "seat") drive(p);
	else if (!drive_special(p)) harness_error("unknown profile %s", p.profile.c_str());
	cur = nullptr;
	for (auto &kv : G ? G->count : std::map<std::string, long>()) W->probe[kv.first] += (u64)kv.second;
	for (auto pr : W->procs) mixh(pr->nsys);
	mixh(W->now);
}

// ------------------------------------------------------------------ logging (C30)
// The same plan runs twice with the same decisions: once with everything logged to a handler, once
// with the levels and handlers of the plan. Nothing but the log output may differ, and the second
// run has to show exactly those messages of the first that its settings ask for.
static int header_level(const std::string &l) {
	static const char *T[] = {"[ERROR]", "[INFO]", "[DEBUG]"};
	for (int i = 0; i < 3; i++)
		if (l.find(T[i]) != std::string::npos) return i + 1;
	return 0;
}
static const char *level_name(int l) {
	static const char *N[] = {"silent", "error", "info", "debug"};
	return l < 0 ? "unset" : l < 4 ? N[l] : "all";
}
static std::string untimed(const std::string &l) {
	size_t k = l.find(' ');
	return k == std::string::npos ? l : l.substr(k + 1);
}
typedef std::vector<const LogMsg *> Msgs;
static void compare_daemon(const Msgs &all, const Msgs &got, int lv) {
	size_t n = 0;
	auto missed = [&](const LogMsg *m) {
		int h = header_level(m->text);
		if (lv == 3 || (h && h <= lv)) violation("C30", "message-missing", "seatd -l %s does not print \"%s\"", level_name(lv), m->text.c_str());
	};
	for (auto m : got) {
		int h = header_level(m->text);
		if (m->via < 0 || lv == 0 || h > lv) {
			violation("C30", "message-unwanted", "seatd -l %s prints \"%s\"%s", level_name(lv), m->text.c_str(), m->via < 0 ? " on its standard output" : "");
			return;
		}
		size_t k = n;
		while (k < all.size() && untimed(all[k]->text) != untimed(m->text)) k++;
		if (k == all.size()) {
			violation("C30", "message-unwanted", "seatd -l %s prints \"%s\", which -l debug does not", level_name(lv), m->text.c_str());
			return;
		}
		for (; n < k; n++) missed(all[n]);
		n++;
		W->probe["log.daemon"]++;
	}
	for (; n < all.size(); n++) missed(all[n]);
}
static void compare_app(const Msgs &all, const Msgs &have) {
	Msgs want;
	auto place = [](int via) { return via < 0 ? "the standard output" : via == 0 ? "the standard error stream" : via == 1 ? "the first handler" : "the second handler"; };
	for (auto m : all) {
		if (m->via != 1) violation("C30", "message-unwanted", "a message goes to %s although a handler is set: \"%s\"", place(m->via), m->text.c_str());
		else if (m->level < 1 || m->level > 3) violation("C30", "message-level", "the handler is called with level %d: \"%s\"", m->level, m->text.c_str());
		else if (m->level <= m->want_level) want.push_back(m);
	}
	auto same = [](const LogMsg *w, const LogMsg *h) {
		return w->want_handler == h->via && (h->via ? h->text == w->text && h->level == w->level : h->text.find(w->text) != std::string::npos);
	};
	for (size_t i = 0; i < want.size() || i < have.size(); i++) {
		const LogMsg *w = i < want.size() ? want[i] : nullptr, *h = i < have.size() ? have[i] : nullptr;
		if (w && h && same(w, h)) {
			W->probe[w->want_handler == 0 ? "log.stderr" : "log.handler"]++;
			continue;
		}
		bool later = false; // is what was printed asked for, but later?
		for (size_t k = i; h && k < want.size(); k++) later |= same(want[k], h);
		if (w && (!h || later)) violation("C30", "message-missing", "level %s: this %s message does not arrive at %s: \"%s\"", level_name(w->want_level), level_name(w->level), place(w->want_handler), w->text.c_str());
		else violation("C30", "message-unwanted", "level %s, to %s: this message arrives at %s: \"%s\"", level_name(h->want_level), place(h->want_handler), place(h->via), h->text.c_str());
		return;
	}
}
static void compare_logs(const std::vector<LogMsg> &all, const std::vector<LogMsg> &got) {
	std::map<int, std::pair<Msgs, Msgs>> by;
	std::set<int> daemons;
	for (auto &m : all) by[m.pid].first.push_back(&m);
	for (auto &m : got) by[m.pid].second.push_back(&m);
	for (auto &v : {&all, &got})
		for (auto &m : *v)
			if (m.daemon) daemons.insert(m.pid);
	for (auto &kv : by)
		if (daemons.count(kv.first)) {
			if (W->plan->get("dlvl", -1) >= 0) compare_daemon(kv.second.first, kv.second.second, (int)W->plan->get("dlvl") & 3);
		} else compare_app(kv.second.first, kv.second.second);
}
void run_plan(Plan &p, bool replay, const std::map<DecKey, u32> *dec, const std::string &prop) {
	if (!p.get("logcmp")) {
		run_once(p, replay, dec, prop, 0);
		return;
	}
	run_once(p, replay, dec, prop, 1);
	if (W->stop) return;
	u64 h1 = W->hash, steps = W->steps;
	std::vector<LogMsg> all = std::move(W->logs);
	std::map<DecKey, u32> d1 = std::move(W->dec);
	run_once(p, replay, dec, prop, 2);
	if (!replay) W->dec.insert(d1.begin(), d1.end());
	W->steps += steps;
	if (W->hash != h1) violation("C30", "logging-changes-behaviour", "the run takes another course when other log levels and handlers are set");
	else if (!W->stop) compare_logs(all, W->logs);
}
