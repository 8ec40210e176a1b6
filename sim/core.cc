// Fibers, scheduler, decisions, signals, process life cycle.
#include "sim.h"
#include <algorithm>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

World *W;
Proc *cur;
bool verbose;
bool g_in_sim;

const char *kind_name[K_MAX] = {"preempt", "next", "sigdelay", "short_read", "short_write", "eintr", "eagain_send",
	"send_err", "alloc", "open_dev", "ioctl_dev", "open_tty", "ioctl_tty", "dup", "accept", "realpath", "peercred",
	"fcntl", "spurious_poll", "poll_err", "socket", "bind", "listen", "chmod", "chown", "unlink", "write_err", "connect",
	"fork", "exec", "setid", "waitpid", "bus", "vtdelay", "recv_err", "timejump", "misc", "kdmode", "fsrace"};

// ------------------------------------------------------------------ coverage + hang detection
extern "C" {
u32 cov_n;
unsigned char cov_map[65536];
long edge_left = 1 << 30;
static long edge_armed = 1 << 30;
static const long HANG_EDGES = 3000000;
void edge_slow(void);
void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
	if (start == stop || *start) return;
	for (u32 *x = start; x < stop; x++) *x = ++cov_n;
}
void __sanitizer_cov_trace_pc_guard(u32 *guard) {
	cov_map[*guard & 65535] = 1;
	if (--edge_left <= 0) edge_slow();
}
}
static void arm_edges() {
	edge_armed = HANG_EDGES;
	if (cur && cur->sigpending && cur->sig_edges > 0 && cur->sig_edges < edge_armed) edge_armed = cur->sig_edges;
	edge_left = edge_armed;
}
void edge_slow(void) {
	if (!cur) {
		edge_left = 1 << 30;
		return;
	}
	if (edge_armed < HANG_EDGES) {
		cur->sig_edges = 0;
		edge_left = edge_armed = HANG_EDGES;
		deliver_signals();
		return;
	}
	violation(cur->is_daemon ? "@daemon C12" : cur->img == IMG_L ? "@lib C19" : cur->img == IMG_S ? "C15 C26" : "C22", "hang-no-syscall",
		"%s executes forever without a system call", cur->name.c_str());
	cur->crashed = true;
	proc_exit(SIGKILL);
}

// ------------------------------------------------------------------ tracing
void mixh(u64 v) { W->hash = mix64(W->hash ^ v); }
void trace(const char *fmt, ...) {
	if (!verbose) return;
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	fprintf(stderr, "[%6llu t=%9.3fms %-8s] %s\n", (unsigned long long)W->steps, W->now / 1e6,
		cur ? cur->name.c_str() : "-", b);
}
void harness_error(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "HARNESS-ERROR: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, " (seed %llu, actor %s)\n", W && W->plan ? (unsigned long long)W->plan->seed : 0ull, cur ? cur->name.c_str() : "-");
	va_end(ap);
	_exit(70);
}
static bool has_prop(const std::string &list, const std::string &p) {
	size_t i = 0;
	while (i < list.size()) {
		size_t j = list.find(' ', i);
		if (j == std::string::npos) j = list.size();
		if (list.compare(i, j - i, p) == 0) return true;
		i = j + 1;
	}
	return false;
}
extern std::string expand_props(const std::string &);
bool g_lazy, g_late;
void violation(const char *props, const char *rule, const char *fmt, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (g_late) {
		// Learned of late: only what does not depend on when it was produced can be judged
		static const char *keep[] = {"bad-message", "reply-unasked", "wrong-reply", "bad-error-number", "stream-changed", "descriptor-late", "no-descriptor",
			"not-a-device", "path-not-allowed", "via-symlink", "not-shared", "id-reused", "id-other-file", "bad-id", "message-missing", "message-unwanted", "message-level", "logging-changes-behaviour", "enable-out-of-order", "disable-out-of-order"};
		bool k = false;
		for (auto r : keep) k |= !strcmp(r, rule);
		if (!k) return;
	}
	std::string ps = expand_props(props);
	trace("VIOLATION %s %s: %s", ps.c_str(), rule, b);
	for (auto &v : W->viol)
		if (v.rule == rule) return;
	static const char *only = getenv("SIM_RULE"); // debugging aid
	if (only && strcmp(only, rule)) return;
	W->viol.push_back({ps, rule, b, W->steps});
	if (!W->stop_prop.empty() && has_prop(ps, W->stop_prop)) {
		W->stop = true;
		W->stop_reason = rule;
	}
}

// ------------------------------------------------------------------ decisions
u32 decide(int actor, Kind k, u32 n, double p) {
	u32 idx;
	Proc *pr = nullptr;
	if (cur && cur->actor == actor) pr = cur;
	if (pr) idx = (u32)pr->dec_n[k]++;
	else {
		for (auto q : W->procs)
			if (q->actor == actor && q->st != P_DEAD) { pr = q; break; }
		static u64 other_gen = ~0ull;
		static std::map<std::pair<int, int>, u32> other;
		if (other_gen != W->gen) other.clear(), other_gen = W->gen;
		idx = pr ? (u32)pr->dec_n[k]++ : other[{actor, k}]++;
	}
	// actor numbers are unique per process incarnation, see proc_new
	if (n < 2) return 0;
	DecKey key{actor, k, idx};
	if (W->replay) {
		auto it = W->dec.find(key);
		return it == W->dec.end() ? 0 : it->second % n;
	}
	if (p <= 0) return 0;
	u64 h = mix64(mix64(W->plan->seed * 1000003 + (u64)actor * 8191 + k) ^ ((u64)idx << 20));
	if ((h >> 11) * (1.0 / 9007199254740992.0) >= p) return 0;
	u32 v = p >= 1 ? (u32)(mix64(h) % n) : 1 + (u32)(mix64(h) % (n - 1));
	if (v) W->dec[key] = v;
	return v;
}
u32 faultn(Kind k, u32 n) {
	if (!cur || !cur->faultable || !W->faults_on) return 0;
	double r = (size_t)k < W->plan->rate.size() ? W->plan->rate[k] : 0;
	u32 v = decide(cur->actor, k, n, r);
	if (v) {
		W->fault_fired[k]++;
		trace("fault %s -> %u", kind_name[k], v);
		if (W->mon) W->mon->on_fault(cur, k);
	}
	return v;
}
bool fault(Kind k) { return faultn(k, 2) != 0; }

// ------------------------------------------------------------------ image globals
#define IMGSYM(I)                                                                                   \
	extern "C" char __start_simdata_##I[] __attribute__((weak)), __stop_simdata_##I[] __attribute__((weak)); \
	extern "C" char __start_simbss_##I[] __attribute__((weak)), __stop_simbss_##I[] __attribute__((weak));
IMGSYM(S) IMGSYM(L) IMGSYM(W)
struct ImgRange {
	char *d0, *d1, *b0, *b1;
	std::vector<char> pristine;
	Proc *owner;
} img[IMG_N];

static void copy_raw(void *dst, const void *src, size_t n) {
	asm volatile("rep movsb" : "+D"(dst), "+S"(src), "+c"(n)::"memory");
}
static void img_save(Image i, std::vector<char> &v) {
	auto &r = img[i];
	size_t a = r.d1 - r.d0, b = r.b1 - r.b0;
	v.resize(a + b);
	if (a) copy_raw(v.data(), r.d0, a);
	if (b) copy_raw(v.data() + a, r.b0, b);
}
static void img_load(Image i, const std::vector<char> &v) {
	auto &r = img[i];
	size_t a = r.d1 - r.d0, b = r.b1 - r.b0;
	if (v.size() != a + b) harness_error("image size");
	if (a) copy_raw(r.d0, v.data(), a);
	if (b) copy_raw(r.b0, v.data() + a, b);
}
void images_init() {
	img[IMG_S] = {__start_simdata_S, __stop_simdata_S, __start_simbss_S, __stop_simbss_S, {}, nullptr};
	img[IMG_L] = {__start_simdata_L, __stop_simdata_L, __start_simbss_L, __stop_simbss_L, {}, nullptr};
	img[IMG_W] = {__start_simdata_W, __stop_simdata_W, __start_simbss_W, __stop_simbss_W, {}, nullptr};
	for (int i = 1; i < IMG_N; i++) img_save((Image)i, img[i].pristine);
}
static void img_activate(Proc *p) {
	Image i = p->img;
	if (i == IMG_NONE || img[i].owner == p) return;
	if (img[i].owner) {
		img_save(i, img[i].owner->gdata[i]);
		img[i].owner->ghave[i] = true;
	}
	img_load(i, p->ghave[i] ? p->gdata[i] : img[i].pristine);
	img[i].owner = p;
}
static void img_forget(Proc *p) {
	for (int i = 1; i < IMG_N; i++)
		if (img[i].owner == p) img[i].owner = nullptr;
}

// ------------------------------------------------------------------ stacks and context switch
extern "C" void ctx_switch(void **save, void *load);
extern "C" int ctx_fork(void **save, void (*fn)(void *), void *arg);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	movl $1, %eax
	ret
.size ctx_switch,.-ctx_switch
.globl ctx_fork
.type ctx_fork,@function
ctx_fork:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rdx, %rdi
	subq $8, %rsp
	call *%rsi
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	xorl %eax, %eax
	ret
.size ctx_fork,.-ctx_fork
)");

static const size_t STK = 256 * 1024;
static std::vector<Stack *> stk_pool;
static void *main_sp;
static const void *main_bottom;
static size_t main_size;
static inline char *shadow_of(const void *p) { return (char *)(((uintptr_t)p >> 3) + 0x7fff8000ul); }

static Stack *stk_get() {
	Stack *s;
	if (!stk_pool.empty()) {
		s = stk_pool.back();
		stk_pool.pop_back();
	} else {
		s = new Stack;
		s->base = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (s->base == MAP_FAILED) harness_error("mmap stack");
		mprotect(s->base, 4096, PROT_NONE);
		s->base += 4096;
		s->size = STK;
	}
	__asan_unpoison_memory_region(s->base, s->size);
	s->resident = nullptr;
	s->refs = 1;
	return s;
}
static void stk_put(Proc *p) {
	Stack *s = p->stk;
	if (!s) return;
	p->stk = nullptr;
	if (s->resident == p) s->resident = nullptr;
	if (--s->refs == 0) stk_pool.push_back(s);
}

static void to_scheduler() {
	Proc *me = cur;
	void *fake = nullptr;
	me->err = errno;
	__sanitizer_start_switch_fiber(&fake, main_bottom, main_size);
	ctx_switch(&me->sp, main_sp);
	__sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
	errno = cur->err;
	arm_edges();
}
static void fiber_main() {
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
	arm_edges();
	errno = 0;
	deliver_signals();
	int rc = cur->entry();
	proc_exit((rc & 0xff) << 8);
}
static void evict(Stack *s) {
	Proc *r = s->resident;
	if (!r) return;
	size_t n = s->base + s->size - (char *)r->sp;
	r->saved_stk.resize(n);
	r->saved_shadow.resize(s->size / 8);
	copy_raw(r->saved_stk.data(), r->sp, n);
	copy_raw(r->saved_shadow.data(), shadow_of(s->base), s->size / 8);
	s->resident = nullptr;
}
static void switch_to(Proc *p) {
	img_activate(p);
	Stack *s = p->stk;
	if (s->resident != p) {
		evict(s);
		if (p->started) {
			copy_raw(p->sp, p->saved_stk.data(), p->saved_stk.size());
			copy_raw(shadow_of(s->base), p->saved_shadow.data(), p->saved_shadow.size());
		}
		s->resident = p;
	}
	if (!p->started) {
		p->started = true;
		u64 *t = (u64 *)(s->base + s->size);
		*--t = 0;
		*--t = 0, *--t = 0; // alignment: at function entry rsp % 16 == 8
		*--t = (u64)&fiber_main;
		for (int i = 0; i < 6; i++) *--t = 0;
		p->sp = t;
	}
	cur = p;
	void *fake = nullptr;
	__sanitizer_start_switch_fiber(&fake, s->base, s->size);
	ctx_switch(&main_sp, p->sp);
	__sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
	cur = nullptr;
	edge_left = 1 << 30;
}

// ------------------------------------------------------------------ processes
Proc *proc_new(const char *name, int actor, Image im, std::function<int()> entry) {
	Proc *p = new Proc;
	p->pid = W->next_pid++;
	p->name = name;
	p->actor = actor;
	p->img = im;
	p->entry = std::move(entry);
	p->stk = stk_get();
	p->fds.resize(3);
	for (int i = 0; i < 3; i++) {
		p->fds[i].f = file_new(F_NULL);
		p->fds[i].f->path = "std";
	}
	W->procs.push_back(p);
	return p;
}
Proc *proc_find(int pid) {
	for (auto p : W->procs)
		if (p->pid == pid && p->st != P_DEAD) return p;
	return nullptr;
}
static void free_heap(Proc *p) {
	for (auto it = W->heap.begin(); it != W->heap.end();) {
		if (it->second.first == p->pid) {
			free(it->first);
			it = W->heap.erase(it);
		} else ++it;
	}
}
static void proc_finish(Proc *p, int status) {
	if (p->st == P_ZOMBIE || p->st == P_DEAD) return;
	trace("exit %s status %x", p->name.c_str(), status);
	mixh(0xe817 ^ ((u64)p->pid << 32) ^ status);
	p->exit_status = status;
	if (W->mon) W->mon->on_exit(p, status);
	p->st = P_ZOMBIE;
	p->waits.clear();
	p->ready = nullptr;
	for (size_t i = 0; i < p->fds.size(); i++)
		if (p->fds[i].f) {
			File *f = p->fds[i].f;
			p->fds[i].f = nullptr;
			file_unref(f);
		}
	// the kernel resets nothing on the VT when its controlling process dies
	free_heap(p);
	for (char *e : p->envmem) free(e);
	p->envmem.clear();
	Proc *par = proc_find(p->ppid);
	if (!par || par->st == P_ZOMBIE || par->act[SIGCHLD].h == SIG_IGN) p->st = P_DEAD;
	if (par) post_signal(par, SIGCHLD);
	for (auto q : W->procs)
		if (q->ppid == p->pid) {
			q->ppid = 1;
			if (q->st == P_ZOMBIE) q->st = P_DEAD;
		}
}
void proc_exit(int status) {
	Proc *p = cur;
	proc_finish(p, status);
	to_scheduler();
	harness_error("dead process resumed");
}
void proc_kill(Proc *p, int status) {
	if (p == cur) proc_exit(status);
	proc_finish(p, status);
	img_forget(p);
	stk_put(p);
}
static void reap_contexts() {
	for (auto p : W->procs)
		if ((p->st == P_ZOMBIE || p->st == P_DEAD) && p->stk) {
			img_forget(p);
			stk_put(p);
		}
}
// exec: replace the current process' program
void proc_exec(Image im, std::function<int()> entry) {
	Proc *p = cur;
	free_heap(p);
	p->inherited.clear();
	for (auto &e : p->fds)
		if (e.f && e.cloexec) {
			File *f = e.f;
			e.f = nullptr;
			file_unref(f);
		}
	for (int i = 1; i < 65; i++)
		if (p->act[i].h != SIG_IGN) p->act[i] = SigAct();
	p->img = im;
	p->entry = std::move(entry);
	p->optind_ = 1;
	p->optpos_ = 0;
	p->exec_count++;
	p->suid = p->euid;
	p->sgid = p->egid;
	p->started = false;
	// The old stack may be shared with the forking parent; leave it behind.
	p->exec_ok = true;
	p->st = P_RUNNABLE;
	to_scheduler();
	harness_error("exec returned");
}
struct ForkArg {
	Proc *child;
};
static void fork_capture(void *a) {
	Proc *c = ((ForkArg *)a)->child;
	Stack *s = cur->stk;
	size_t n = s->base + s->size - (char *)c->sp;
	c->saved_stk.resize(n);
	c->saved_shadow.resize(s->size / 8);
	copy_raw(c->saved_stk.data(), c->sp, n);
	copy_raw(c->saved_shadow.data(), shadow_of(s->base), s->size / 8);
}
extern int alloc_actor();
int proc_fork() {
	Proc *p = cur, *c = new Proc;
	c->pid = W->next_pid++;
	c->ppid = p->pid;
	c->name = p->name + "'";
	c->actor = alloc_actor();
	c->img = p->img;
	c->uid = p->uid, c->gid = p->gid, c->euid = p->euid, c->egid = p->egid, c->suid = p->suid, c->sgid = p->sgid;
	c->faultable = p->faultable;
	c->fd_limit = p->fd_limit;
	c->env = p->env;
	memcpy(c->act, p->act, sizeof c->act);
	c->fds = p->fds;
	for (auto &e : c->fds)
		if (e.f) file_ref(e.f);
	for (auto &kv : W->heap)
		if (kv.second.first == p->pid) c->inherited.insert(kv.first);
	c->optind_ = p->optind_;
	c->sigrun = p->sigrun, c->umask_ = p->umask_;
	c->log_level = p->log_level, c->log_handler = p->log_handler;
	c->optpos_ = p->optpos_;
	for (int i = 1; i < IMG_N; i++)
		if (p->img == i) {
			img_save((Image)i, c->gdata[i]);
			c->ghave[i] = true;
		}
	c->stk = p->stk;
	c->stk->refs++;
	c->started = true;
	if (p->img == IMG_L) c->is_daemon = c->is_builtin = true;
	W->procs.push_back(c);
	if (W->mon) W->mon->on_fork(p, c);
	ForkArg a{c};
	p->err = errno;
	c->err = errno;
	if (ctx_fork(&c->sp, fork_capture, &a) == 1) {
		// child, resumed by the scheduler
		__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
		arm_edges();
		return 0;
	}
	return c->pid;
}

// ------------------------------------------------------------------ signals
static bool sig_default_ignored(int s) { return s == SIGCHLD || s == SIGWINCH || s == SIGURG || s == SIGCONT; }
void post_signal(Proc *p, int sig) {
	if (p->st == P_ZOMBIE || p->st == P_DEAD || sig == 0) return;
	if (sig == SIGSTOP) { p->stopped = true; p->stop_seen = false; return; }
	if (sig == SIGCONT) { p->stopped = false; return; }
	if (sig == SIGKILL) { p->stopped = false; proc_kill(p, SIGKILL); return; }
	if (p->act[sig].h == SIG_IGN) return;
	if (p->act[sig].h == SIG_DFL && sig_default_ignored(sig)) return;
	if (p->act[sig].h == SIG_DFL && p != cur && !(p->sigrun >> sig & 1)) {
		trace("default action of signal %d kills %s", sig, p->name.c_str());
		proc_kill(p, sig);
		return;
	}
	bool had = p->sigpending != 0;
	p->sigpending |= 1ull << sig;
	if (!had || p->sig_edges < 0)
		p->sig_edges = p == cur ? 0 : (long)decide(p->actor, K_SIGDELAY, 48, W->plan->rate.size() > K_SIGDELAY ? W->plan->rate[K_SIGDELAY] : 0);
	if (p->sig_edges > 0 && W->faults_on) W->fault_fired[K_SIGDELAY]++;
}
static bool sig_deliverable(Proc *p) { return (p->sigpending & ~p->sigrun) != 0; }
void deliver_signals() {
	Proc *p = cur;
	while (sig_deliverable(p)) {
		u64 m = p->sigpending & ~p->sigrun;
		int s = __builtin_ctzll(m);
		p->sigpending &= ~(1ull << s);
		SigAct a = p->act[s];
		if (a.h == SIG_IGN || (a.h == SIG_DFL && sig_default_ignored(s))) continue;
		if (a.h == SIG_DFL) proc_exit(s);
		trace("signal %d handler", s);
		mixh(0x5160 + s);
		if (W->mon) W->mon->on_signal(p, s);
		if (a.flags & SA_RESETHAND) p->act[s].h = SIG_DFL;
		p->sigrun |= 1ull << s;
		a.h(s);
		p->sigrun &= ~(1ull << s);
	}
	if (!p->sigpending) p->sig_edges = -1;
}

// ------------------------------------------------------------------ scheduler
static Proc *force_next;
bool proc_ready(Proc *p) {
	if (p->interruptible && sig_deliverable(p)) return true;
	if (p->deadline <= W->now) return true;
	for (auto &w : p->waits)
		if (file_poll(w.f) & (w.events | POLLERR | POLLHUP | POLLNVAL)) return true;
	if (p->ready && p->ready()) return true;
	return false;
}
static bool runnable(Proc *p) {
	if (p->stopped) return false;
	return p->st == P_RUNNABLE || (p->st == P_BLOCKED && proc_ready(p));
}
void yield_point() {
	W->steps++;
	W->now += 1000;
	cur->nsys++;
	if (W->stop || W->steps >= W->max_steps) {
		to_scheduler();
		return;
	}
	double r = W->plan->rate.size() > K_PREEMPT ? W->plan->rate[K_PREEMPT] : 0;
	u32 v = decide(cur->actor, K_PREEMPT, 64, r);
	if (v) {
		std::vector<Proc *> o;
		for (auto p : W->procs)
			if (p != cur && runnable(p)) o.push_back(p);
		if (!o.empty()) {
			force_next = o[(v - 1) % o.size()];
			W->sched_switches++;
			W->fault_fired[K_PREEMPT]++;
			{ std::vector<Proc *> tmp; tmp.swap(o); }
			to_scheduler();
		}
	}
}
void block_current() {
	cur->st = P_BLOCKED;
	cur->blocks++;
	to_scheduler();
	cur->st = P_RUNNABLE;
}
void wait_ready() {
	if (!proc_ready(cur) || W->stop || W->steps >= W->max_steps) block_current();
	cur->ready = nullptr;
}
static void run_timers() {
	for (size_t i = 0; i < W->timers.size();) {
		if (W->timers[i].first <= W->now) {
			auto f = W->timers[i].second;
			W->timers.erase(W->timers.begin() + i);
			f();
			i = 0;
		} else i++;
	}
}
static bool quiescent;
bool world_quiescent() { return quiescent; }
static int last_actor;
void run_world(u64 max_steps) {
	W->max_steps = W->steps + max_steps;
	quiescent = false;
	force_next = nullptr;
	std::vector<Proc *> r;
	while (!W->stop && W->steps < W->max_steps) {
		run_timers();
		Proc *n = force_next;
		force_next = nullptr;
		if (!n) {
			r.clear();
			size_t start = 0;
			for (size_t i = 0; i < W->procs.size(); i++)
				if (W->procs[i]->actor == last_actor) start = i + 1;
			for (size_t i = 0; i < W->procs.size(); i++) {
				Proc *p = W->procs[(start + i) % W->procs.size()];
				if (runnable(p)) r.push_back(p);
			}
			if (r.empty()) {
				u64 t = ~0ull;
				for (auto p : W->procs)
					if (p->st == P_BLOCKED && !p->stopped) t = std::min(t, p->deadline);
				for (auto &x : W->timers) t = std::min(t, x.first);
				if (t == ~0ull) {
					quiescent = true;
					return;
				}
				if (t > W->now) W->now = t;
				continue;
			}
			u32 v = r.size() > 1 ? decide(0, K_NEXT, (u32)r.size(), 1.0) : 0;
			n = r[v];
		}
		if (n->st == P_ZOMBIE || n->st == P_DEAD || n->stopped) continue;
		last_actor = n->actor;
		if (n->exec_ok) { // finish an exec: fresh stack
			n->exec_ok = false;
			img_forget(n);
			n->ghave[IMG_S] = n->ghave[IMG_L] = n->ghave[IMG_W] = false;
			stk_put(n);
			n->stk = stk_get();
		}
		switch_to(n);
		reap_contexts();
	}
}
u64 world_gen;
void world_reset() {
	if (!W) return;
	cur = nullptr;
	for (auto p : W->procs) {
		img_forget(p);
		stk_put(p);
		for (char *e : p->envmem) free(e);
	}
	for (auto &h : W->heap) free(h.first);
	for (auto p : W->procs) delete p;
	for (auto f : W->files) {
		delete f;
	}
	for (auto &n : W->fs) delete n.second;
	for (auto n : W->dead_nodes) delete n;
	delete W->mon;
	delete W;
	W = nullptr;
}
void world_init(Plan *plan, bool replay) {
	world_reset();
	W = new World;
	W->plan = plan;
	W->replay = replay;
	W->gen = ++world_gen;
	last_actor = 0;
	edge_left = 1 << 30;
	W->now = 1000000000ull;
	W->hash = mix64(plan->seed);
}
extern "C" void edge_rearm(void) {
	if (cur) arm_edges();
}
