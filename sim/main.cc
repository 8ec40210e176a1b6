// Search, replay and minimisation.
//   sim search <prop> <verif seed> <worker> <workers> <seconds> <max runs> <out dir>
//   sim show   <prop> <run seed>             runs one seed verbosely
//   sim min    <prop> <run seed> <out file> <seconds>
//   sim replay <file> [-v]
//   sim selftest <prop> <verif seed> <runs>
#include "game.h"
#include "profiles.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char *__asan_default_options() {
	return "detect_stack_use_after_return=0:detect_leaks=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190:"
	       "allocator_may_return_null=1:handle_segv=1:allow_user_segv_handler=0:quarantine_size_mb=16:symbolize=0:"
	       "detect_odr_violation=0:abort_on_error=0";
}
extern "C" {
extern u32 cov_n;
extern unsigned char cov_map[65536];
}
// ------------------------------------------------------------------ shared with child processes
struct DecRec {
	int actor, kind;
	u32 n, v;
};
static const size_t MAXDEC = 400000, HTAB = 1 << 21, MAXPROBE = 400;
struct Shared {
	u64 index, seed;
	bool lazy;
	u64 runs, nontrivial, steps, sim_ns, switches;
	u64 fired[K_MAX];
	u64 faulty_runs;
	bool have_viol, crash, harness;
	char props[256], rule[64], detail[1024];
	u64 hash, vsteps;
	u64 ndec;
	DecRec dec[MAXDEC];
	unsigned char cov[65536];
	u32 cov_n;
	struct {
		char name[48];
		u64 n;
	} probe[MAXPROBE];
	char crash_report[4096];
	u64 nhash, nstate;
	u64 hash_tab[HTAB], state_tab[HTAB];
	u64 other_viol;
	char other[32][64];
	u64 other_n[32], other_seed[32];
};
static Shared *S;
static bool plan_for(const std::string &prop, u64 seed, Plan &p) {
	const char *e = getenv("SIM_PLAN"); // debugging aid
	return make_plan(e ? e : prop, seed, p);
}
static Plan *cur_plan;
static bool tab_add(u64 *t, u64 &n, u64 h) {
	if (!h) h = 1;
	if (n > HTAB * 3 / 4) return false;
	for (size_t i = h & (HTAB - 1);; i = (i + 1) & (HTAB - 1)) {
		if (t[i] == h) return false;
		if (!t[i]) {
			t[i] = h;
			n++;
			return true;
		}
	}
}
static void put(char *d, size_t n, const std::string &s) {
	size_t k = std::min(n - 1, s.size());
	memcpy(d, s.data(), k);
	d[k] = 0;
}
static void record_decisions() {
	S->ndec = 0;
	for (auto &kv : W->dec) {
		if (S->ndec >= MAXDEC) break;
		S->dec[S->ndec++] = {kv.first.actor, kv.first.kind, kv.first.n, kv.second};
	}
}
static const Violation *find_viol(const std::string &prop) {
	for (auto &v : W->viol) {
		std::string p = " " + v.props + " ";
		if (prop.empty() || p.find(" " + prop + " ") != std::string::npos) return &v;
	}
	return nullptr;
}
static void on_asan_report(const char *r) {
	if (S) put(S->crash_report, sizeof S->crash_report, r);
}
static std::string crash_props(Proc *p) {
	if (!p) return "";
	if (p->is_daemon) return expand_props("@daemon");
	if (p->img == IMG_L) return expand_props("@lib");
	if (p->img == IMG_W) return "C22";
	if (p->img == IMG_S) return "C15 C26";
	return "";
}
// AddressSanitizer found an error: memory of the code under test is corrupt.
static void on_death() {
	if (!S || !W) _exit(70);
	S->crash = true;
	std::string pr = crash_props(cur);
	put(S->props, sizeof S->props, pr);
	put(S->rule, sizeof S->rule, "memory-error");
	std::string k = S->crash_report, kind = "memory error";
	size_t i = k.find("AddressSanitizer: ");
	if (i != std::string::npos) {
		size_t e = k.find_first_of(" \n", i + 18);
		kind = k.substr(i + 18, e - i - 18);
	}
	put(S->detail, sizeof S->detail, kind + " in " + (cur ? cur->name : std::string("the harness")));
	S->hash = W->hash;
	S->vsteps = W->steps;
	if (pr.empty()) S->harness = true;
	record_decisions();
	_exit(pr.empty() ? 70 : 77);
}
static void stats_add() {
	S->runs++;
	S->steps += W->steps;
	S->sim_ns += W->now - 1000000000ull;
	S->switches += W->sched_switches;
	u64 f = 0;
	for (int i = 0; i < K_MAX; i++) {
		S->fired[i] += W->fault_fired[i];
		if (i != K_PREEMPT && i != K_NEXT) f += W->fault_fired[i];
	}
	S->faulty_runs += f > 0;
	bool nt = W->states.size() >= 3 || W->probe["nontrivial"];
	if (nt) S->nontrivial += tab_add(S->hash_tab, S->nhash, W->hash);
	for (u64 h : W->states) tab_add(S->state_tab, S->nstate, h);
	for (auto &kv : W->probe) {
		if (!kv.second) continue;
		for (size_t i = 0; i < MAXPROBE; i++) {
			if (!S->probe[i].name[0]) put(S->probe[i].name, sizeof S->probe[i].name, kv.first);
			if (kv.first.compare(0, 47, S->probe[i].name) == 0) {
				S->probe[i].n += kv.second;
				break;
			}
		}
	}
	for (size_t i = 0; i < 65536; i++) S->cov[i] |= cov_map[i];
	S->cov_n = cov_n;
	for (auto &v : W->viol) {
		for (int i = 0; i < 32; i++) {
			std::string key = v.rule;
			if (!S->other[i][0]) {
				put(S->other[i], 64, key);
				S->other_seed[i] = S->seed;
			}
			if (key.compare(0, 63, S->other[i]) == 0) {
				S->other_n[i]++;
				break;
			}
		}
	}
}
static void take_violation(const std::string &prop) {
	const Violation *v = find_viol(prop);
	S->have_viol = v != nullptr;
	S->hash = W->hash;
	S->vsteps = W->steps;
	if (v) {
		put(S->props, sizeof S->props, v->props);
		put(S->rule, sizeof S->rule, v->rule);
		put(S->detail, sizeof S->detail, v->detail);
	}
	record_decisions();
}
static void clear_result() {
	S->have_viol = S->crash = S->harness = false;
	S->props[0] = S->rule[0] = S->detail[0] = S->crash_report[0] = 0;
	S->hash = S->ndec = 0;
}
static void child_setup(bool quiet) {
	__sanitizer_set_death_callback(on_death);
	if (quiet) {
		int n = open("/dev/null", O_WRONLY);
		if (n >= 0) dup2(n, 2);
	}
}
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
struct Result {
	bool viol = false, harness = false;
	std::string props, rule, detail;
	u64 hash = 0, steps = 0;
	std::vector<DecRec> dec;
};
// Runs a plan in a child of its own.
static Result attempt(Plan &p, bool replay, const std::map<DecKey, u32> *dec, const std::string &prop, bool show = false) {
	clear_result();
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(!show);
		__asan_set_error_report_callback(on_asan_report);
		alarm(60);
		run_plan(p, replay, dec, prop);
		take_violation(prop);
		fflush(nullptr);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	Result r;
	r.viol = S->have_viol || S->crash;
	r.harness = S->harness || !WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77);
	if (S->crash && !prop.empty() && (" " + std::string(S->props) + " ").find(" " + prop + " ") == std::string::npos) r.viol = false;
	r.props = S->props;
	r.rule = S->rule;
	r.detail = S->detail;
	r.hash = S->hash;
	r.steps = S->vsteps;
	r.dec.assign(S->dec, S->dec + S->ndec);
	return r;
}
static double wall() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
static u64 seed_of(u64 vseed, const std::string &prop, u64 i) {
	u64 h = vseed * 0x9e3779b97f4a7c15ull;
	for (char ch : prop) h = h * 131 + (unsigned char)ch;
	return mix64(mix64(h) + i) & 0xffffffffffffull;
}

// ------------------------------------------------------------------ replay files
static std::string hexs(const std::string &s) {
	std::string r;
	char b[4];
	for (unsigned char ch : s) snprintf(b, sizeof b, "%02x", ch), r += b;
	return r.empty() ? "-" : r;
}
static std::string unhex(const std::string &s) {
	std::string r;
	if (s == "-") return r;
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}
static bool printable(const std::string &s) {
	if (s.empty()) return false;
	for (char ch : s)
		if (ch <= ' ' || ch > '~') return false;
	return s[0] != '=';
}
static void write_replay(const char *path, const std::string &prop, Plan &p, const std::map<DecKey, u32> &dec, const Result &r) {
	FILE *f = fopen(path, "w");
	if (!f) harness_error("cannot write %s", path);
	fprintf(f, "seatd-sim-replay 1\nproperty %s\nprofile %s\nseed %llu\n", prop.c_str(), p.profile.c_str(), (unsigned long long)p.seed);
	fprintf(f, "rule %s\nhash %016llx\ndetail %s\n", r.rule.c_str(), (unsigned long long)r.hash, r.detail.c_str());
	for (auto &kv : p.cfg) fprintf(f, "cfg %s %ld\n", kv.first.c_str(), kv.second);
	for (auto &o : p.ops) {
		std::string s = o.s.empty() ? "-" : printable(o.s) ? "=" + o.s : hexs(o.s);
		fprintf(f, "op %d %s %s", o.actor, o.verb.c_str(), s.c_str());
		for (long a : o.a) fprintf(f, " %ld", a);
		fprintf(f, "\n");
	}
	for (auto &kv : dec) fprintf(f, "dec %d %s %u %u\n", kv.first.actor, kind_name[kv.first.kind], kv.first.n, kv.second);
	fclose(f);
}
static bool read_replay(const char *path, std::string &prop, Plan &p, std::map<DecKey, u32> &dec, Result &want) {
	FILE *f = fopen(path, "r");
	if (!f) return false;
	char *line = nullptr;
	size_t cap = 0;
	ssize_t n;
	bool magic = false;
	while ((n = getline(&line, &cap, f)) > 0) {
		std::string l(line, (size_t)n);
		while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
		std::vector<std::string> t;
		for (size_t i = 0; i < l.size();) {
			size_t j = l.find(' ', i);
			if (j == std::string::npos) j = l.size();
			if (j > i) t.push_back(l.substr(i, j - i));
			i = j + 1;
		}
		if (t.empty()) continue;
		if (t[0] == "seatd-sim-replay") magic = true;
		else if (t[0] == "property") prop = t[1];
		else if (t[0] == "profile") p.profile = t[1];
		else if (t[0] == "seed") p.seed = strtoull(t[1].c_str(), nullptr, 10);
		else if (t[0] == "rule") want.rule = t[1];
		else if (t[0] == "hash") want.hash = strtoull(t[1].c_str(), nullptr, 16);
		else if (t[0] == "detail") want.detail = l.substr(7);
		else if (t[0] == "cfg") p.cfg[t[1]] = atol(t[2].c_str());
		else if (t[0] == "op") {
			Op o;
			o.actor = atoi(t[1].c_str());
			o.verb = t[2];
			o.s = t[3][0] == '=' ? t[3].substr(1) : unhex(t[3]);
			for (size_t i = 4; i < t.size(); i++) o.a.push_back(atol(t[i].c_str()));
			p.ops.push_back(o);
		} else if (t[0] == "dec") {
			int k = -1;
			for (int i = 0; i < K_MAX; i++)
				if (t[2] == kind_name[i]) k = i;
			if (k < 0) return false;
			dec[{atoi(t[1].c_str()), k, (u32)strtoul(t[3].c_str(), nullptr, 10)}] = (u32)strtoul(t[4].c_str(), nullptr, 10);
		}
	}
	free(line);
	fclose(f);
	p.rate.assign(K_MAX, 0);
	return magic;
}

// ------------------------------------------------------------------ calibration
// The oracle learns what the daemon says from its attempts to send. Whether each reply shows in an attempt at
// once is a matter of how the output buffer is written, not of behaviour: try it with readers that lag.
static void calibrate() {
	clear_result();
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(true);
		alarm(60);
		for (u64 i = 0; i < 60 && !S->lazy; i++) {
			Plan p;
			lag_plan(i, p);
			run_plan(p, false, nullptr, "");
			S->lazy = W->probe["lag.unanswered"] > 0;
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	clear_result();
	g_lazy = S->lazy;
	if (g_lazy && getenv("SIM_STDERR")) fprintf(stderr, "calibration: output may be hidden\n");
}

// ------------------------------------------------------------------ search
static int do_search(char **a) {
	std::string prop = a[0], dir = a[6];
	u64 vseed = strtoull(a[1], nullptr, 10), w = strtoull(a[2], nullptr, 10), nw = strtoull(a[3], nullptr, 10);
	double secs = atof(a[4]);
	u64 maxruns = strtoull(a[5], nullptr, 10);
	bool all = getenv("SIM_KEEP_GOING") != nullptr;
	double t0 = wall();
	u64 i = w;
	int rc = 0;
	while (wall() - t0 < secs && S->runs < maxruns) {
		clear_result();
		S->index = i;
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(!getenv("SIM_STDERR"));
			__asan_set_error_report_callback(on_asan_report);
			Plan p;
			u64 end = i + nw * 3000;
			for (; i < end && wall() - t0 < secs && S->runs < maxruns; i += nw) {
				S->index = i;
				S->seed = seed_of(vseed, prop, i);
				alarm(60);
				if (!make_plan(prop, S->seed, p)) harness_error("no plan for %s", prop.c_str());
				cur_plan = &p;
				run_plan(p, false, nullptr, all ? "" : prop);
				stats_add();
				if (find_viol(prop) && !all) {
					take_violation(prop);
					_exit(10);
				}
			}
			S->index = i;
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			i = S->index;
			continue;
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
			rc = 10;
			break;
		}
		if (S->crash && !S->harness) {
			bool mine = (" " + std::string(S->props) + " ").find(" " + prop + " ") != std::string::npos;
			if (all) fprintf(stderr, "CRASH seed %llu %s\n", (unsigned long long)S->seed, S->detail);
			if (mine && !all) {
				S->have_viol = true;
				rc = 10;
				break;
			}
			i = S->index + nw;
			continue;
		}
		fprintf(stderr, "HARNESS-ERROR: worker died with status %x at seed %llu %s\n", st, (unsigned long long)S->seed, S->detail);
		if (S->crash) fprintf(stderr, "%s\n", S->crash_report);
		rc = 70;
		if (all) {
			i = S->index + nw;
			continue;
		}
		break;
	}
	double el = wall() - t0;
	std::string base = dir + "/w" + std::to_string(w);
	FILE *f = fopen((base + ".json.tmp").c_str(), "w");
	if (!f) return 70;
	auto U = [](u64 x) { return (unsigned long long)x; };
	fprintf(f, "{\"rc\": %d, \"seed\": %llu, \"index\": %llu, \"runs\": %llu, \"nontrivial\": %llu, \"steps\": %llu, \"sim_s\": %.3f, \"switches\": %llu, \"wall\": %.3f,\n", rc,
		U(S->seed), U(S->index), U(S->runs), U(S->nhash), U(S->steps), S->sim_ns / 1e9, U(S->switches), el);
	fprintf(f, "\"faulty_runs\": %llu, \"states\": %llu, \"rule\": \"%s\",\n\"fired\": {", U(S->faulty_runs), U(S->nstate), S->rule);
	bool first = true;
	for (int k = 0; k < K_MAX; k++)
		if (S->fired[k]) fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", kind_name[k], U(S->fired[k])), first = false;
	fprintf(f, "},\n\"probes\": {");
	first = true;
	for (size_t k = 0; k < MAXPROBE && S->probe[k].name[0]; k++) fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", S->probe[k].name, U(S->probe[k].n)), first = false;
	fprintf(f, "},\n\"violations_seen\": {");
	first = true;
	for (int k = 0; k < 32 && S->other[k][0]; k++) fprintf(f, "%s\"%s\": [%llu, %llu]", first ? "" : ", ", S->other[k], U(S->other_n[k]), U(S->other_seed[k])), first = false;
	fprintf(f, "},\n\"edges\": %u}\n", S->cov_n);
	fclose(f);
	rename((base + ".json.tmp").c_str(), (base + ".json").c_str());
	f = fopen((base + ".bin.tmp").c_str(), "w");
	if (f) {
		std::vector<u64> h, s;
		for (size_t k = 0; k < HTAB; k++) {
			if (S->hash_tab[k]) h.push_back(S->hash_tab[k]);
			if (S->state_tab[k]) s.push_back(S->state_tab[k]);
		}
		u64 n[2] = {h.size(), s.size()};
		fwrite(n, 8, 2, f);
		fwrite(h.data(), 8, h.size(), f);
		fwrite(s.data(), 8, s.size(), f);
		fwrite(S->cov, 1, 65536, f);
		fclose(f);
		rename((base + ".bin.tmp").c_str(), (base + ".bin").c_str());
	}
	return rc;
}

// ------------------------------------------------------------------ minimisation
typedef std::map<DecKey, u32> DecMap;
static DecMap to_map(const std::vector<DecRec> &v) {
	DecMap m;
	for (auto &d : v) m[{d.actor, d.kind, d.n}] = d.v;
	return m;
}
static int do_min(char **a) {
	std::string prop = a[0];
	u64 seed = strtoull(a[1], nullptr, 10);
	const char *out = a[2];
	double budget = atof(a[3]);
	Plan p;
	if (!plan_for(prop, seed, p)) return 70;
	Result r1 = attempt(p, false, nullptr, prop), r2 = attempt(p, false, nullptr, prop);
	if (r1.harness || r2.harness) {
		fprintf(stderr, "HARNESS-ERROR while reproducing seed %llu\n", (unsigned long long)seed);
		return 70;
	}
	if (!r1.viol || !r2.viol || r1.hash != r2.hash || r1.rule != r2.rule) {
		fprintf(stderr, "NONDETERMINISM: seed %llu gives %s %016llx and %s %016llx\n", (unsigned long long)seed, r1.rule.c_str(), (unsigned long long)r1.hash, r2.rule.c_str(),
			(unsigned long long)r2.hash);
		return 71;
	}
	DecMap dec = to_map(r1.dec);
	Result r3 = attempt(p, true, &dec, prop);
	if (!r3.viol || r3.hash != r1.hash) {
		fprintf(stderr, "NONDETERMINISM: replaying the decisions of seed %llu gives %s %016llx instead of %s %016llx\n", (unsigned long long)seed, r3.rule.c_str(),
			(unsigned long long)r3.hash, r1.rule.c_str(), (unsigned long long)r1.hash);
		return 71;
	}
	double t0 = wall();
	size_t ops0 = p.ops.size(), dec0 = dec.size();
	u64 tries = 0;
	Result best = r3;
	auto ok = [&](Plan &q, DecMap &d) {
		if (wall() - t0 > budget) return false;
		tries++;
		Result r = attempt(q, true, &d, prop);
		if (r.harness || !r.viol || r.rule != best.rule) return false;
		best = r;
		return true;
	};
	auto min_dec = [&]() {
		{
			DecMap e;
			if (!dec.empty() && ok(p, e)) {
				dec = e;
				return;
			}
		}
		for (int k = 0; k < K_MAX; k++) {
			DecMap e;
			for (auto &kv : dec)
				if (kv.first.kind != k) e.insert(kv);
			if (e.size() < dec.size() && ok(p, e)) dec = e;
		}
		size_t n = 2;
		while (dec.size() >= 1 && wall() - t0 < budget) {
			std::vector<std::pair<DecKey, u32>> v(dec.begin(), dec.end());
			size_t chunk = std::max<size_t>(1, (v.size() + n - 1) / n);
			bool hit = false;
			for (size_t s = 0; s < v.size(); s += chunk) {
				DecMap e;
				for (size_t i = 0; i < v.size(); i++)
					if (i < s || i >= s + chunk) e.insert(v[i]);
				if (ok(p, e)) {
					dec = e;
					hit = true;
					break;
				}
			}
			if (hit) n = std::max<size_t>(2, n - 1);
			else if (chunk == 1) break;
			else n = std::min(v.size(), n * 2);
		}
	};
	auto min_ops = [&]() {
		size_t n = 2;
		std::set<int> actors;
		for (auto &o : p.ops) actors.insert(o.actor);
		for (int ac : actors) {
			Plan q = p;
			q.ops.clear();
			for (auto &o : p.ops)
				if (o.actor != ac) q.ops.push_back(o);
			if (ok(q, dec)) p = q;
		}
		while (p.ops.size() >= 1 && wall() - t0 < budget) {
			size_t chunk = std::max<size_t>(1, (p.ops.size() + n - 1) / n);
			bool hit = false;
			for (size_t s = 0; s < p.ops.size(); s += chunk) {
				Plan q = p;
				q.ops.erase(q.ops.begin() + (long)s, q.ops.begin() + (long)std::min(s + chunk, q.ops.size()));
				if (ok(q, dec)) {
					p = q;
					hit = true;
					break;
				}
			}
			if (hit) n = std::max<size_t>(2, n - 1);
			else if (chunk == 1) break;
			else n = std::min(p.ops.size(), n * 2);
		}
	};
	auto min_cfg = [&]() {
		for (auto k : {"tour", "sockcap", "final"}) {
			if (!p.cfg.count(k) || !p.cfg[k]) continue;
			Plan q = p;
			q.cfg.erase(k);
			if (ok(q, dec)) p = q;
		}
	};
	for (int round = 0; round < 3; round++) {
		size_t before = p.ops.size() + dec.size();
		min_ops();
		min_dec();
		min_cfg();
		if (p.ops.size() + dec.size() == before) break;
	}
	// configuration of clients that are gone
	for (auto it = p.cfg.begin(); it != p.cfg.end();) {
		size_t d = it->first.find_first_of("0123456789");
		bool drop = false;
		if (d != std::string::npos && d > 0) {
			int ac = atoi(it->first.c_str() + d);
			drop = true;
			for (auto &o : p.ops) drop &= o.actor != ac;
		}
		if (drop) it = p.cfg.erase(it);
		else ++it;
	}
	Result fin = attempt(p, true, &dec, prop), fin2 = attempt(p, true, &dec, prop);
	if (fin.harness || !fin.viol || fin.hash != fin2.hash || fin.rule != best.rule) {
		fprintf(stderr, "NONDETERMINISM: the minimised schedule does not reproduce\n");
		return 71;
	}
	write_replay(out, prop, p, dec, fin);
	printf("{\"ops\": [%zu, %zu], \"decisions\": [%zu, %zu], \"attempts\": %llu, \"rule\": \"%s\", \"hash\": \"%016llx\"}\n%s\n", ops0, p.ops.size(), dec0, dec.size(),
		(unsigned long long)tries, fin.rule.c_str(), (unsigned long long)fin.hash, fin.detail.c_str());
	return 0;
}
static int do_replay(int n, char **a) {
	Plan p;
	DecMap dec;
	std::string prop;
	Result want;
	if (!read_replay(a[0], prop, p, dec, want)) {
		fprintf(stderr, "cannot read %s\n", a[0]);
		return 70;
	}
	bool show = n > 1 && !strcmp(a[1], "-v");
	verbose = show;
	Result r = attempt(p, true, &dec, prop, show);
	if (r.harness) return 70;
	if (!r.viol) {
		printf("no violation (hash %016llx)\n", (unsigned long long)r.hash);
		return 0;
	}
	printf("%s %s: %s\nhash %016llx%s\n", prop.c_str(), r.rule.c_str(), r.detail.c_str(), (unsigned long long)r.hash, r.hash == want.hash && r.rule == want.rule ? "" : " (differs from the file)");
	return r.hash == want.hash && r.rule == want.rule ? 1 : 2;
}
static int do_show(char **a) {
	Plan p;
	std::string prop = a[0];
	if (!plan_for(prop, strtoull(a[1], nullptr, 10), p)) return 70;
	verbose = true;
	for (auto &kv : p.cfg) fprintf(stderr, "cfg %s %ld\n", kv.first.c_str(), kv.second);
	for (int k = 0; k < K_MAX; k++)
		if (p.rate[k] > 0) fprintf(stderr, "rate %s %g\n", kind_name[k], p.rate[k]);
	for (auto &o : p.ops) {
		fprintf(stderr, "op %d %s %s", o.actor, o.verb.c_str(), o.s.c_str());
		for (long x : o.a) fprintf(stderr, " %ld", x);
		fprintf(stderr, "\n");
	}
	Result r = attempt(p, false, nullptr, getenv("SIM_ALL") ? "" : prop, true);
	printf("%s: %s (%s) hash %016llx steps %llu\n", r.viol ? r.rule.c_str() : "ok", r.detail.c_str(), r.props.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps);
	if (S->crash) printf("%s\n", S->crash_report);
	return r.harness ? 70 : r.viol;
}
// Every seed twice, in different processes and in a different order, and once replayed from its decisions.
static int do_selftest(char **a) {
	std::string prop = a[0];
	u64 vseed = strtoull(a[1], nullptr, 10), n = strtoull(a[2], nullptr, 10);
	u64 *h = (u64 *)mmap(nullptr, n * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int pass = 0; pass < 2; pass++) {
		clear_result();
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(false);
			Plan p;
			for (u64 j = 0; j < n; j++) {
				u64 i = pass ? n - 1 - j : j;
				alarm(60);
				make_plan(prop, seed_of(vseed, prop, i), p);
				run_plan(p, false, nullptr, prop);
				h[i * 2 + pass] = W->hash;
				if (pass == 1 && i % 3 == 0) {
					DecMap d = W->dec;
					u64 want = W->hash;
					run_plan(p, true, &d, prop);
					if (W->hash != want) h[i * 2 + 1] = ~want;
				}
			}
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) {
			fprintf(stderr, "selftest: child died with status %x\n", st);
			return S->crash && !S->harness ? 0 : 70; // a crash of the code under test is the search's business
		}
	}
	u64 bad = 0;
	for (u64 i = 0; i < n; i++)
		if (h[i * 2] != h[i * 2 + 1]) {
			if (!bad) fprintf(stderr, "NONDETERMINISM at seed %llu\n", (unsigned long long)seed_of(vseed, prop, i));
			bad++;
		}
	printf("{\"selftest_runs\": %llu, \"mismatches\": %llu}\n", (unsigned long long)n * 2, (unsigned long long)bad);
	return bad ? 71 : 0;
}
int main(int argc, char **argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) return 70;
	images_init();
	calibrate();
	std::string c = argc > 1 ? argv[1] : "";
	if (c == "search" && argc >= 9) return do_search(argv + 2);
	if (c == "min" && argc >= 6) return do_min(argv + 2);
	if (c == "replay" && argc >= 3) return do_replay(argc - 2, argv + 2);
	if (c == "show" && argc >= 4) return do_show(argv + 2);
	if (c == "selftest" && argc >= 5) return do_selftest(argv + 2);
	fprintf(stderr, "usage: see main.cc\n");
	return 70;
}
