// libc seam: every symbol the code under test imports for I/O, time, processes, memory or
// environment is redirected (objcopy --redefine-sym) to sim_<name> below.
#include "sim.h"
#include "shim.h"
#include <algorithm>
#include <fcntl.h>
#include <getopt.h>
#include <grp.h>
#include <poll.h>
#include <pwd.h>
#include <sched.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::map<std::string, ExecEntry> exec_reg;
std::string last_assert;
int proc_fork();
void proc_exec(Image im, std::function<int()> entry);
int next_actor_id;
int alloc_actor() { return next_actor_id++; }

extern "C" long edge_left;

static inline void sys_enter(int nr) {
	g_in_sim = true;
	if (cur->sigpending) deliver_signals();
	yield_point();
	if (cur->sigpending && cur->sig_edges <= 0) deliver_signals();
	mixh(((u64)cur->actor << 16) ^ nr);
}
void arm_edges_pub();
static inline void sys_exit(bool force) {
	if (cur->sigpending) {
		if (force || cur->sig_edges <= 0) deliver_signals();
	}
	g_in_sim = false;
}
extern "C" void edge_rearm(void);
extern bool g_inject_eagain;
long sim_bus_enter(void) { sys_enter(60); return 0; }
void sim_bus_exit(void) { sys_exit(false); edge_rearm(); }
// Runs the body of a system call; the body returns a value or -errno.
template <class F> static inline long sysc(int nr, F f) {
	int saved = errno;
	sys_enter(nr);
	long r = f();
	errno = r < 0 && r > -4096 ? (int)-r : saved;
	mixh((u64)r ^ 0xabcdef);
	bool intr = r == -EINTR;
	long out = r < 0 && r > -4096 ? -1 : r;
	sys_exit(intr);
	edge_rearm();
	return out;
}
static void *track(void *p, size_t n) {
	if (p && cur) {
		W->heap[p] = {cur->pid, n};
		cur->allocs++;
	}
	return p;
}
static bool alloc_fails() {
	if (cur && fault(K_ALLOC)) {
		errno = ENOMEM;
		return true;
	}
	return false;
}
// Waits while a descriptor is not ready (blocking I/O). Returns false if interrupted.
static bool wait_file(File *f, short ev) {
	cur->waits.clear();
	cur->waits.push_back({f, ev, -1});
	cur->deadline = ~0ull;
	wait_ready();
	cur->waits.clear();
	if (cur->sigpending & ~cur->sigrun) return false;
	return true;
}

extern "C" {
char *sim_optarg;
int sim_optind = 1, sim_opterr = 1, sim_optopt;
char **sim_environ;

// ------------------------------------------------------------------ memory
void *sim_malloc(size_t n) { return alloc_fails() ? nullptr : track(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return alloc_fails() ? nullptr : track(calloc(a, b), a * b); }
void sim_free(void *p) {
	if (!p) return;
	auto it = W->heap.find(p);
	if (it == W->heap.end() || it->second.first != cur->pid) {
		if (cur->inherited.erase(p)) return; // the parent's copy lives on
		if (it == W->heap.end()) {
			free(p); // AddressSanitizer reports the double or invalid free
			return;
		}
	}
	W->heap.erase(it);
	cur->allocs--;
	free(p);
}
void *sim_realloc(void *p, size_t n) {
	if (alloc_fails()) return nullptr;
	if (p) {
		auto it = W->heap.find(p);
		if (it != W->heap.end() && it->second.first == cur->pid) {
			W->heap.erase(it);
			cur->allocs--;
		} else if (it != W->heap.end() && cur->inherited.erase(p)) {
			void *q = malloc(n);
			memcpy(q, p, std::min(n, it->second.second));
			return track(q, n);
		}
	}
	return track(realloc(p, n), n);
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) {
	if (alloc_fails()) return nullptr;
	size_t n = strlen(s) + 1;
	char *r = (char *)malloc(n);
	memcpy(r, s, n);
	return (char *)track(r, n);
}
char *sim_strndup(const char *s, size_t m) {
	if (alloc_fails()) return nullptr;
	size_t n = strnlen(s, m);
	char *r = (char *)malloc(n + 1);
	memcpy(r, s, n);
	r[n] = 0;
	return (char *)track(r, n + 1);
}
int sim_vasprintf(char **out, const char *fmt, va_list ap) {
	if (alloc_fails()) return -1;
	char b[8192];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n < 0) return n;
	*out = (char *)track(malloc(n + 1), n + 1);
	memcpy(*out, b, std::min((size_t)n + 1, sizeof b));
	return n;
}
int sim_asprintf(char **out, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

// ------------------------------------------------------------------ stdio (log output goes to the trace)
// The standard streams: recorded line by line. Like a real write they may change errno.
static void out(int strm, const char *s, size_t n) {
	if (strm && (W->log_pass || verbose)) {
		std::string &l = cur->outline[strm - 1];
		l.append(s, n);
		size_t k;
		while ((k = l.find('\n')) != std::string::npos) {
			if (verbose) trace("  log| %s", l.substr(0, k).c_str());
			if (W->log_pass) {
				LogMsg m;
				m.pid = cur->pid, m.daemon = cur->img == IMG_S, m.via = strm == 2 ? 0 : -1, m.text = l.substr(0, k);
				m.want_level = cur->log_level, m.want_handler = cur->log_handler;
				W->logs.push_back(m);
			}
			l.erase(0, k + 1);
		}
	}
	errno = ESPIPE;
}
static int strm_of(FILE *f) { return f == stdout ? 1 : f == stderr ? 2 : 0; }
static int strm_of(int fd) { return fd == 1 || fd == 2 ? fd : 0; }
static int vout(int strm, const char *fmt, va_list ap) {
	char b[4096];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n > 0) out(strm, b, std::min((size_t)n, sizeof b - 1));
	return n;
}
#define FMT(strm) \
	va_list ap; \
	va_start(ap, fmt); \
	int r = vout(strm, fmt, ap); \
	va_end(ap); \
	return r
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { return vout(strm_of(f), fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...) { FMT(strm_of(f)); }
int sim_printf(const char *fmt, ...) { FMT(1); }
int sim_vprintf(const char *fmt, va_list ap) { return vout(1, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) { FMT(strm_of(fd)); }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { return vout(strm_of(fd), fmt, ap); }
int sim_puts(const char *s) {
	out(1, s, strlen(s));
	out(1, "\n", 1);
	return 1;
}
int sim_fputs(const char *s, FILE *f) {
	out(strm_of(f), s, strlen(s));
	return 1;
}
int sim_fputc(int c, FILE *f) {
	char ch = (char)c;
	out(strm_of(f), &ch, 1);
	return c;
}
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
size_t sim_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
	out(strm_of(f), (const char *)p, sz * n);
	return n;
}
void sim_flockfile(FILE *) {}
void sim_funlockfile(FILE *) {}
int sim_ferror(FILE *) { return 0; }
int sim_fflush(FILE *) { return 0; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
int sim_setlinebuf(FILE *) { return 0; }
void sim_perror(const char *s) {
	std::string m = std::string(s ? s : "") + (s && *s ? ": " : "") + strerror(errno) + "\n";
	out(2, m.data(), m.size());
}
int sim_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }

// ------------------------------------------------------------------ process
void sim_exit(int c) {
	// exit handlers and buffered output belong to the application that was forked
	if (cur->is_builtin) violation("C23", "exit-handlers", "the built-in daemon runs the exit handlers of its application");
	proc_exit((c & 0xff) << 8);
}
void sim__exit(int c) { proc_exit((c & 0xff) << 8); }
void sim__Exit(int c) { proc_exit((c & 0xff) << 8); }
void sim_abort(void) {
	last_assert = "abort()";
	cur->crashed = true;
	proc_exit(SIGABRT);
}
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	char b[512];
	snprintf(b, sizeof b, "assertion '%s' failed at %s:%u in %s", e, f, l, fn);
	last_assert = b;
	trace("%s", b);
	cur->crashed = true;
	proc_exit(SIGABRT);
}
int sim_atexit(void (*)(void)) { return 0; }
pid_t sim_getpid(void) { return cur->pid; }
pid_t sim_getppid(void) { return cur->ppid; }
uid_t sim_getuid(void) { return cur->uid; }
uid_t sim_geteuid(void) { return cur->euid; }
gid_t sim_getgid(void) { return cur->gid; }
gid_t sim_getegid(void) { return cur->egid; }
static bool may_uid(int u) { return cur->euid == 0 || u == cur->uid || u == cur->euid || u == cur->suid; }
static bool may_gid(int g) { return cur->euid == 0 || g == cur->gid || g == cur->egid || g == cur->sgid; }
static long do_setuid(int u) {
	if (faultn(K_SETID, 2)) return -EAGAIN;
	if (cur->euid == 0) cur->uid = cur->euid = cur->suid = u;
	else if (u == cur->uid || u == cur->suid) cur->euid = u;
	else return -EPERM;
	return 0;
}
static long do_setgid(int g) {
	if (faultn(K_SETID, 2)) return -EPERM;
	if (cur->euid == 0) cur->gid = cur->egid = cur->sgid = g;
	else if (g == cur->gid || g == cur->sgid) cur->egid = g;
	else return -EPERM;
	return 0;
}
static long do_setres(bool group, int r, int e, int sv, bool re) {
	if (faultn(K_SETID, 2)) return group ? -EPERM : -EAGAIN;
	auto may = [&](int x) { return x == -1 || (group ? may_gid(x) : may_uid(x)); };
	int &R = group ? cur->gid : cur->uid, &E = group ? cur->egid : cur->euid, &S = group ? cur->sgid : cur->suid;
	if (!may(r) || !may(e) || !may(sv)) return -EPERM;
	int old = R;
	if (r != -1) R = r;
	if (e != -1) E = e;
	if (sv != -1) S = sv;
	if (re && (r != -1 || (e != -1 && e != old))) S = E;
	return 0;
}
int sim_setuid(uid_t u) { return (int)sysc(1, [&]() -> long { return do_setuid((int)u); }); }
int sim_setgid(gid_t g) { return (int)sysc(2, [&]() -> long { return do_setgid((int)g); }); }
int sim_setresuid(uid_t r, uid_t e, uid_t s) { return (int)sysc(1, [&]() -> long { return do_setres(false, (int)r, (int)e, (int)s, false); }); }
int sim_setresgid(gid_t r, gid_t e, gid_t s) { return (int)sysc(2, [&]() -> long { return do_setres(true, (int)r, (int)e, (int)s, false); }); }
int sim_setreuid(uid_t r, uid_t e) { return (int)sysc(1, [&]() -> long { return do_setres(false, (int)r, (int)e, -1, true); }); }
int sim_setregid(gid_t r, gid_t e) { return (int)sysc(2, [&]() -> long { return do_setres(true, (int)r, (int)e, -1, true); }); }
int sim_seteuid(uid_t e) { return (int)sysc(3, [&]() -> long { return do_setres(false, -1, (int)e, -1, false); }); }
int sim_setegid(gid_t e) { return (int)sysc(4, [&]() -> long { return do_setres(true, -1, (int)e, -1, false); }); }
int sim_getresuid(uid_t *r, uid_t *e, uid_t *s) {
	*r = cur->uid, *e = cur->euid, *s = cur->suid;
	return 0;
}
int sim_getresgid(gid_t *r, gid_t *e, gid_t *s) {
	*r = cur->gid, *e = cur->egid, *s = cur->sgid;
	return 0;
}
int sim_setgroups(size_t, const gid_t *) { return (int)sysc(5, [&]() -> long {
	if (cur->euid != 0) return -EPERM;
	cur->dropped_groups = true;
	return 0; }); }
int sim_initgroups(const char *, gid_t) { return (int)sysc(5, [&]() -> long { return cur->euid ? -EPERM : 0; }); }
pid_t sim_fork(void) {
	return (pid_t)sysc(6, [&]() -> long {
		if (faultn(K_FORK, 2)) return -EAGAIN;
		int r = proc_fork();
		if (r) mixh(r);
		return r;
	});
}
pid_t sim_vfork(void) { return sim_fork(); }
static pid_t do_waitpid(pid_t pid, int *status, int opt) {
	return (pid_t)sysc(7, [&]() -> long {
		if (faultn(K_WAITPID, 2)) return -EINTR;
		while (true) {
			bool any = false;
			for (auto p : W->procs) {
				if (p->ppid != cur->pid || p->st == P_DEAD) continue;
				if (pid > 0 && p->pid != pid) continue;
				any = true;
				if (p->st == P_ZOMBIE) {
					if (status) *status = p->exit_status;
					p->st = P_DEAD;
					return p->pid;
				}
				if (opt & WUNTRACED && p->stopped && !p->stop_seen) {
					p->stop_seen = true;
					if (status) *status = SIGSTOP << 8 | 0x7f;
					return p->pid;
				}
			}
			if (!any) return -ECHILD;
			if (opt & WNOHANG) return 0;
			int me = cur->pid;
			cur->ready = [pid, me, opt]() {
				bool any = false;
				for (auto p : W->procs)
					if (p->ppid == me && p->st != P_DEAD && (pid <= 0 || p->pid == pid)) {
						any = true;
						if (p->st == P_ZOMBIE || (opt & WUNTRACED && p->stopped && !p->stop_seen)) return true;
					}
				return !any;
			};
			cur->deadline = ~0ull;
			wait_ready();
			if (cur->sigpending & ~cur->sigrun) return -EINTR;
		}
	});
}
pid_t sim_waitpid(pid_t p, int *s, int o) { return do_waitpid(p, s, o); }
pid_t sim_wait(int *s) { return do_waitpid(-1, s, 0); }
pid_t sim_wait4(pid_t p, int *s, int o, void *) { return do_waitpid(p, s, o); }
int sim_kill(pid_t pid, int sig) {
	return (int)sysc(8, [&]() -> long {
		Proc *p = nullptr;
		bool reaped = false;
		for (auto q : W->procs)
			if (q->pid == pid) {
				p = q;
				reaped = q->st == P_DEAD;
			}
		if (W->mon) W->mon->on_kill(cur, pid, sig, reaped);
		cur->killed_sent.push_back(pid * 100 + sig);
		if (!p || reaped) return -ESRCH;
		if (cur->euid != 0 && cur->euid != p->uid && cur->euid != p->suid && cur->uid != p->uid && cur->uid != p->suid) return -EPERM;
		post_signal(p, sig);
		return 0;
	});
}
int sim_raise(int sig) { return sim_kill(cur->pid, sig); }
static int do_exec(const char *path, char *const argv[], std::vector<std::pair<std::string, std::string>> env) {
	return (int)sysc(9, [&]() -> long {
		u32 e = faultn(K_EXEC, 3);
		if (e) return e == 1 ? -ENOENT : -ENOMEM;
		auto it = exec_reg.find(path);
		if (it == exec_reg.end()) return -ENOENT;
		Proc *p = cur;
		p->argv_store.clear();
		for (char *const *a = argv; *a; a++) p->argv_store.push_back(*a);
		p->exec_path = path;
		p->env = std::move(env);
		if (W->mon) W->mon->on_exec(p, path, p->argv_store);
		p->argv_ptr.clear();
		for (auto &s : p->argv_store) p->argv_ptr.push_back(&s[0]);
		p->argv_ptr.push_back(nullptr);
		p->name = it->second.name;
		p->is_daemon = it->second.img == IMG_S;
		auto fn = it->second.main;
		proc_exec(it->second.img, [p, fn]() { return fn((int)p->argv_store.size(), p->argv_ptr.data()); });
		return 0;
	});
}
int sim_execve(const char *path, char *const argv[], char *const envp[]) {
	std::vector<std::pair<std::string, std::string>> env;
	for (char *const *e = envp; e && *e; e++) {
		const char *q = strchr(*e, '=');
		if (q) env.push_back({std::string(*e, q - *e), q + 1});
	}
	return do_exec(path, argv, env);
}
int sim_execv(const char *path, char *const argv[]) { return do_exec(path, argv, cur->env); }
int sim_execvp(const char *file, char *const argv[]) {
	std::string f = file;
	if (f.find('/') == std::string::npos) f = "/usr/bin/" + f;
	return do_exec(f.c_str(), argv, cur->env);
}
int sim_execvpe(const char *file, char *const argv[], char *const envp[]) {
	std::string f = file;
	if (f.find('/') == std::string::npos) f = "/usr/bin/" + f;
	return sim_execve(f.c_str(), argv, envp);
}
mode_t sim_umask(mode_t m) {
	mode_t o = (mode_t)cur->umask_;
	cur->umask_ = m & 0777;
	return o;
}
pid_t sim_setsid(void) { return cur->pid; }
int sim_prctl(int, ...) { return 0; }
int sim_daemon(int, int) { return 0; }

// ------------------------------------------------------------------ environment
char *sim_getenv(const char *k) {
	for (auto &e : cur->env)
		if (e.first == k) {
			for (char *m : cur->envmem)
				if (e.second == m) return m;
			char *m = strdup(e.second.c_str());
			cur->envmem.push_back(m);
			return m;
		}
	return nullptr;
}
char *sim_secure_getenv(const char *k) { return sim_getenv(k); }
int sim_setenv(const char *k, const char *v, int over) {
	if (fault(K_ALLOC)) {
		errno = ENOMEM;
		return -1;
	}
	for (auto &e : cur->env)
		if (e.first == k) {
			if (over) e.second = v;
			return 0;
		}
	cur->env.push_back({k, v});
	return 0;
}
int sim_unsetenv(const char *k) {
	for (size_t i = 0; i < cur->env.size();)
		if (cur->env[i].first == k) cur->env.erase(cur->env.begin() + i);
		else i++;
	return 0;
}
int sim_putenv(char *s) {
	const char *q = strchr(s, '=');
	if (!q) return sim_unsetenv(s);
	return sim_setenv(std::string(s, q - s).c_str(), q + 1, 1);
}
int sim_clearenv(void) { cur->env.clear(); return 0; }
struct passwd *sim_getpwnam(const char *n) {
	static struct passwd pw;
	memset(&pw, 0, sizeof pw);
	pw.pw_name = (char *)n;
	if (!strcmp(n, "root")) return &pw;
	if (!strcmp(n, "alice")) {
		pw.pw_uid = 1000;
		pw.pw_gid = 1000;
		return &pw;
	}
	return nullptr;
}
struct group *sim_getgrnam(const char *n) {
	static struct group gr;
	memset(&gr, 0, sizeof gr);
	gr.gr_name = (char *)n;
	if (!strcmp(n, "root")) return &gr;
	if (!strcmp(n, "seat")) {
		gr.gr_gid = 900;
		return &gr;
	}
	return nullptr;
}
int sim_getopt(int argc, char *const argv[], const char *opts) {
	Proc *p = cur;
	sim_optind = p->optind_;
	auto done = [&](int r) {
		p->optind_ = sim_optind;
		return r;
	};
	bool posix = opts[0] == '+' || sim_getenv("POSIXLY_CORRECT");
	if (opts[0] == '+') opts++;
	if (p->optpos_ == 0) {
		if (!posix) { // like glibc, bring the next option forward
			char **v = const_cast<char **>(argv);
			int i = sim_optind, j = i;
			while (j < argc && (v[j][0] != '-' || v[j][1] == 0)) j++;
			if (j < argc && j > i) {
				int n = 1;
				const char *q = v[j] + 1;
				if (strcmp(v[j], "--"))
					for (; *q; q++) {
						const char *o = strchr(opts, *q);
						if (o && *q != ':' && o[1] == ':') {
							if (!q[1] && j + 1 < argc) n = 2;
							break;
						}
					}
				std::rotate(v + i, v + j, v + j + n);
			}
		}
		if (sim_optind >= argc || argv[sim_optind][0] != '-' || argv[sim_optind][1] == 0) return done(-1);
		if (!strcmp(argv[sim_optind], "--")) {
			sim_optind++;
			return done(-1);
		}
		p->optpos_ = 1;
	}
	char *a = argv[sim_optind];
	int c = a[p->optpos_++];
	const char *o = strchr(opts, c);
	if (!o || c == ':') {
		sim_optopt = c;
		if (!a[p->optpos_]) sim_optind++, p->optpos_ = 0;
		return done('?');
	}
	if (o[1] == ':') {
		if (a[p->optpos_]) sim_optarg = a + p->optpos_;
		else if (sim_optind + 1 < argc) sim_optarg = argv[++sim_optind];
		else {
			sim_optopt = c;
			sim_optind++;
			p->optpos_ = 0;
			return done('?');
		}
		sim_optind++;
		p->optpos_ = 0;
	} else if (!a[p->optpos_]) sim_optind++, p->optpos_ = 0;
	return done(c);
}

// ------------------------------------------------------------------ time
int sim_clock_gettime(clockid_t, struct timespec *ts) {
	ts->tv_sec = (time_t)(W->now / 1000000000ull);
	ts->tv_nsec = (long)(W->now % 1000000000ull);
	return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) {
	tv->tv_sec = (time_t)(W->now / 1000000000ull);
	tv->tv_usec = (long)(W->now % 1000000000ull / 1000);
	return 0;
}
time_t sim_time(time_t *t) {
	time_t v = (time_t)(W->now / 1000000000ull);
	if (t) *t = v;
	return v;
}
static long do_sleep(u64 ns) {
	cur->deadline = W->now + ns;
	wait_ready();
	cur->deadline = ~0ull;
	return cur->sigpending & ~cur->sigrun ? -EINTR : 0;
}
int sim_nanosleep(const struct timespec *a, struct timespec *b) {
	return (int)sysc(10, [&]() -> long {
		if (b) b->tv_sec = 0, b->tv_nsec = 0;
		return do_sleep((u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec);
	});
}
int sim_usleep(useconds_t us) { return (int)sysc(10, [&]() -> long { return do_sleep((u64)us * 1000); }); }
unsigned sim_sleep(unsigned s) { return (unsigned)sysc(10, [&]() -> long { return do_sleep((u64)s * 1000000000ull); }); }
int sim_sched_yield(void) { return (int)sysc(11, [&]() -> long { return 0; }); }

// ------------------------------------------------------------------ signals
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
	if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) {
		errno = EINVAL;
		return -1;
	}
	return (int)sysc(12, [&]() -> long {
		if (o) {
			memset(o, 0, sizeof *o);
			o->sa_handler = cur->act[sig].h;
			o->sa_flags = cur->act[sig].flags;
		}
		if (a) {
			cur->act[sig].h = a->sa_handler;
			cur->act[sig].flags = a->sa_flags;
			if (a->sa_handler == SIG_IGN) cur->sigpending &= ~(1ull << sig);
		}
		return 0;
	});
}
void (*sim_signal(int sig, void (*h)(int)))(int) {
	auto old = cur->act[sig].h;
	cur->act[sig].h = h;
	cur->act[sig].flags = SA_RESTART;
	if (h == SIG_IGN) cur->sigpending &= ~(1ull << sig);
	return old;
}
void (*sim___sysv_signal(int sig, void (*h)(int)))(int) {
	auto old = sim_signal(sig, h);
	cur->act[sig].flags = SA_RESETHAND | SA_NODEFER;
	return old;
}
static int do_sigmask(int how, const sigset_t *s, sigset_t *o) {
	if (o) {
		sigemptyset(o);
		for (int i = 1; i < 64; i++)
			if (cur->sigrun >> i & 1) sigaddset(o, i);
	}
	if (s) {
		u64 m = 0;
		for (int i = 1; i < 64; i++)
			if (sigismember(s, i) == 1) m |= 1ull << i;
		if (how == SIG_BLOCK) cur->sigrun |= m;
		else if (how == SIG_UNBLOCK) cur->sigrun &= ~m;
		else cur->sigrun = m;
	}
	return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) {
	return (int)sysc(13, [&]() -> long { return do_sigmask(how, s, o); });
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }

// ------------------------------------------------------------------ descriptors
int sim_close(int fd) { return (int)sysc(20, [&]() -> long { return k_close(cur, fd); }); }
static long do_dup(int fd, int min, bool cl) {
	File *f = fd_get(cur, fd);
	if (!f) return -EBADF;
	if (faultn(K_DUP, 2)) return -EMFILE;
	file_ref(f);
	int r = fd_install(cur, f, cl, min);
	if (r < 0) file_unref(f);
	return r;
}
int sim_dup(int fd) { return (int)sysc(21, [&]() -> long { return do_dup(fd, 0, false); }); }
static long do_dup2(int fd, int to, bool cl) {
	File *f = fd_get(cur, fd);
	if (!f || to < 0 || to >= cur->fd_limit) return -EBADF;
	if (fd == to) return to;
	file_ref(f);
	if (fd_get(cur, to)) k_close(cur, to);
	if ((size_t)to >= cur->fds.size()) cur->fds.resize(to + 1);
	cur->fds[to] = {f, cl};
	return to;
}
int sim_dup2(int fd, int to) { return (int)sysc(21, [&]() -> long { return do_dup2(fd, to, false); }); }
int sim_dup3(int fd, int to, int fl) { return (int)sysc(21, [&]() -> long { return do_dup2(fd, to, fl & O_CLOEXEC); }); }
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return (int)sysc(22, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f) return -EBADF;
		switch (cmd) {
		case F_GETFD:
			if (faultn(K_FCNTL, 2)) return -EINVAL;
			return cur->fds[fd].cloexec ? FD_CLOEXEC : 0;
		case F_SETFD: cur->fds[fd].cloexec = (int)arg & FD_CLOEXEC; return 0;
		case F_GETFL: return f->flags;
		case F_SETFL:
			if (faultn(K_FCNTL, 2)) return -EINVAL;
			f->flags = (f->flags & O_ACCMODE) | ((int)arg & (O_NONBLOCK | O_APPEND));
			return 0;
		case F_DUPFD: return do_dup(fd, (int)arg, false);
		case F_DUPFD_CLOEXEC: return do_dup(fd, (int)arg, true);
		}
		return -EINVAL;
	});
}
int sim_pipe2(int fd[2], int flags) {
	return (int)sysc(23, [&]() -> long {
		if (faultn(K_SOCKET, 2)) return -EMFILE;
		File *r = file_new(F_PIPE_R), *w = file_new(F_PIPE_W);
		r->pipe = w->pipe = new PipeBuf;
		r->pipe->cap = (size_t)W->plan->get("pipecap", 65536);
		r->pipe->readers = r->pipe->writers = 1;
		r->flags = O_RDONLY | (flags & O_NONBLOCK);
		w->flags = O_WRONLY | (flags & O_NONBLOCK);
		int a = fd_install(cur, r, flags & O_CLOEXEC);
		if (a < 0) {
			file_unref(r);
			file_unref(w);
			return a;
		}
		int b = fd_install(cur, w, flags & O_CLOEXEC);
		if (b < 0) {
			k_close(cur, a);
			file_unref(w);
			return b;
		}
		fd[0] = a;
		fd[1] = b;
		return 0;
	});
}
int sim_pipe(int fd[2]) { return sim_pipe2(fd, 0); }
static bool self_pipe(File *f) { // a pipe to oneself does not fail
	File *o = nullptr;
	for (auto &e : cur->fds)
		if (e.f && e.f != f && e.f->type == (f->type == F_PIPE_W ? F_PIPE_R : F_PIPE_W) && e.f->pipe == f->pipe) o = e.f;
	return o;
}
static long do_read(int fd, void *buf, size_t n) {
	File *f = fd_get(cur, fd);
	if (!f) return -EBADF;
	if (f->type == F_SOCK) {
		struct iovec v = {buf, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		long r;
		while ((r = k_recvmsg(cur, fd, &m, 0)) == -EAGAIN && !(f->flags & O_NONBLOCK))
			if (!wait_file(f, POLLIN)) return -EINTR;
		return r;
	}
	if (f->type == F_PIPE_R) {
		if (n == 0) return 0;
		while (f->pipe->data.empty()) {
			if (f->pipe->writers == 0) return 0;
			if (f->flags & O_NONBLOCK) return -EAGAIN;
			if (!wait_file(f, POLLIN)) return -EINTR;
		}
		if (faultn(K_EINTR, 2) && !(f->flags & O_NONBLOCK)) return -EINTR;
		if (!self_pipe(f) && faultn(K_RECV_ERR, 2)) return -EIO;
		size_t k = std::min(n, f->pipe->data.size());
		memcpy(buf, f->pipe->data.data(), k);
		f->pipe->data.erase(0, k);
		return (long)k;
	}
	if (f->type == F_PIPE_W) return -EBADF;
	if (f->type == F_EVDEV || f->type == F_HIDRAW) return dev_live(f) ? -EAGAIN : -ENODEV;
	return 0;
}
static long do_write(int fd, const void *buf, size_t n) {
	File *f = fd_get(cur, fd);
	if (!f) return -EBADF;
	if (f->type == F_SOCK) {
		struct iovec v = {(void *)buf, n};
		struct msghdr m = {};
		m.msg_iov = &v;
		m.msg_iovlen = 1;
		long r;
		while ((r = k_sendmsg(cur, fd, &m, 0)) == -EAGAIN && !(f->flags & O_NONBLOCK))
			if (!wait_file(f, POLLOUT)) return -EINTR;
		return r;
	}
	if (f->type == F_PIPE_W) {
		if (f->pipe->readers == 0) {
			post_signal(cur, SIGPIPE);
			return -EPIPE;
		}
		while (f->pipe->data.size() >= f->pipe->cap) {
			if (f->flags & O_NONBLOCK) return -EAGAIN;
			if (!wait_file(f, POLLOUT)) return -EINTR;
		}
		size_t k = std::min(n, f->pipe->cap - f->pipe->data.size());
		f->pipe->data.append((const char *)buf, k);
		if (W->mon) W->mon->on_pipe_write(cur, f, (const char *)buf, k);
		return (long)k;
	}
	if (f->type == F_PIPE_R) return -EBADF;
	return (long)n;
}
ssize_t sim_read(int fd, void *b, size_t n) { return sysc(24, [&]() -> long { return do_read(fd, b, n); }); }
ssize_t sim_write(int fd, const void *b, size_t n) {
	if (fd == 1 || fd == 2) { // messages
		File *f = fd_get(cur, fd);
		if (f && f->type == F_NULL && f->path == "std") {
			out(fd, (const char *)b, n);
			return (ssize_t)n;
		}
	}
	return sysc(25, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!(f && f->type == F_PIPE_W && self_pipe(f)) && faultn(K_WRITE_ERR, 2)) return -EIO;
		return do_write(fd, b, n);
	});
}
int sim_isatty(int) { return 0; }
int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	return (int)sysc(26, [&]() -> long {
		long r = k_ioctl(cur, fd, req, arg);
		if (verbose) {
			File *f = fd_get(cur, fd);
			trace("ioctl(%d %s, %lx, %lx) = %ld", fd, f ? f->path.c_str() : "?", req & 0xffffffff, (long)arg, r);
		}
		return r;
	});
}

// ------------------------------------------------------------------ poll
static long do_poll(struct pollfd *fds, nfds_t n, long long timeout_ns) {
	if (!(cur->is_daemon && W->plan->get("pollapp")) && faultn(K_POLL_ERR, 2)) return -ENOMEM;
	auto scan = [&]() {
		long cnt = 0;
		for (nfds_t i = 0; i < n; i++) {
			fds[i].revents = 0;
			if (fds[i].fd < 0) continue;
			File *f = fd_get(cur, fds[i].fd);
			if (!f) {
				fds[i].revents = POLLNVAL;
				cnt++;
				continue;
			}
			f->pollout_armed = fds[i].events & POLLOUT;
			short r = file_poll(f) & (fds[i].events | POLLERR | POLLHUP);
			fds[i].revents = r;
			if (r) cnt++;
		}
		return cnt;
	};
	long c = scan();
	bool idle = c == 0 && !(cur->sigpending & ~cur->sigrun);
	if (W->mon) W->mon->on_poll_enter(cur, idle);
	if (c == 0 && n > 0 && faultn(K_SPURIOUS_POLL, 2)) {
		// readiness that turns out to be stale
		for (nfds_t i = n; i-- > 0;) {
			File *f = fd_get(cur, fds[i].fd);
			if (f && f->type == F_SOCK && (f->connected || f->listening) && (fds[i].events & POLLIN)) {
				fds[i].revents = POLLIN;
				return 1;
			}
		}
	}
	if (c) {
		cur->busy_polls++;
		return c;
	}
	if (timeout_ns == 0) return 0;
	if (faultn(K_EINTR, 2)) return -EINTR;
	cur->busy_polls = 0;
	cur->polls++;
	u64 dl = timeout_ns < 0 ? ~0ull : W->now + (u64)timeout_ns;
	while (true) {
		cur->waits.clear();
		for (nfds_t i = 0; i < n; i++) {
			File *f = fds[i].fd >= 0 ? fd_get(cur, fds[i].fd) : nullptr;
			if (f) cur->waits.push_back({f, fds[i].events, fds[i].fd});
		}
		cur->deadline = dl;
		wait_ready();
		cur->waits.clear();
		cur->deadline = ~0ull;
		c = scan();
		if (c) return c;
		if (cur->sigpending & ~cur->sigrun) return -EINTR;
		if (W->now >= dl) return 0;
	}
}
int sim_poll(struct pollfd *fds, nfds_t n, int timeout) {
	return (int)sysc(27, [&]() -> long {
		if (cur->is_daemon) fs_race_end();
		long r = do_poll(fds, n, timeout < 0 ? -1 : (long long)timeout * 1000000);
		if (verbose) {
			std::string s;
			for (nfds_t i = 0; i < n; i++) s += " " + std::to_string(fds[i].fd) + ":" + std::to_string(fds[i].events) + "/" + std::to_string(fds[i].revents);
			trace("poll(%s, %d) = %ld", s.c_str(), timeout, r);
		}
		if (W->mon) W->mon->on_poll_ret(cur, fds, n, r);
		return r;
	});
}
int sim_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *) {
	return (int)sysc(27, [&]() -> long {
		long r = do_poll(fds, n, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1);
		if (W->mon) W->mon->on_poll_ret(cur, fds, n, r);
		return r;
	});
}

// ------------------------------------------------------------------ sockets
int sim_socket(int dom, int type, int) {
	return (int)sysc(30, [&]() -> long {
		if (dom != AF_UNIX || (type & 0xf) != SOCK_STREAM) return -EAFNOSUPPORT;
		if (faultn(K_SOCKET, 2)) return -EMFILE;
		return k_socket(cur, type);
	});
}
int sim_socketpair(int, int type, int, int sv[2]) {
	return (int)sysc(31, [&]() -> long {
		if (faultn(K_SOCKET, 2)) return -EMFILE;
		return k_socketpair(cur, type, sv);
	});
}
static std::string addr_path(const struct sockaddr *a, socklen_t len) {
	const struct sockaddr_un *u = (const struct sockaddr_un *)a;
	size_t off = offsetof(struct sockaddr_un, sun_path);
	if (len <= off) return "";
	return std::string(u->sun_path, strnlen(u->sun_path, std::min((size_t)len - off, sizeof u->sun_path)));
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t len) {
	return (int)sysc(32, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f || f->type != F_SOCK) return -EBADF;
		u32 e = faultn(K_BIND, 3);
		if (e) return e == 1 ? -EACCES : -EROFS;
		std::string p = addr_path(a, len);
		if (p.empty()) return -EINVAL;
		if (W->fs.count(p)) return -EADDRINUSE;
		if (cur->euid != 0) return -EACCES;
		Node *n = node_new(p, N_SOCK, 0777 & ~cur->umask_, cur->euid, cur->egid);
		n->listener = f;
		f->node = n;
		f->path = p;
		if (W->mon) W->mon->on_fs(cur, "bind", p, 0);
		return 0;
	});
}
int sim_listen(int fd, int backlog) {
	return (int)sysc(33, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f || f->type != F_SOCK) return -EBADF;
		if (faultn(K_LISTEN, 2)) return -EADDRINUSE;
		f->listening = true;
		f->backlog = backlog;
		if (W->mon) W->mon->on_fs(cur, "listen", f->path, 0);
		return 0;
	});
}
int sim_accept4(int fd, struct sockaddr *, socklen_t *, int flags) {
	return (int)sysc(34, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f || f->type != F_SOCK) return -EBADF;
		if (!f->listening) return -EINVAL;
		while (f->acceptq.empty()) {
			if (f->flags & O_NONBLOCK) return -EAGAIN;
			if (!wait_file(f, POLLIN)) return -EINTR;
		}
		u32 e = faultn(K_ACCEPT, 5);
		if (e) return e == 1 ? -EMFILE : e == 2 ? -ECONNABORTED : e == 3 ? -EINTR : -ENOBUFS;
		File *a = f->acceptq.front();
		int nfd = fd_install(cur, a, flags & SOCK_CLOEXEC);
		if (nfd < 0) return nfd;
		f->acceptq.pop_front();
		if (flags & SOCK_NONBLOCK) a->flags |= O_NONBLOCK;
		if (W->mon) W->mon->on_accept(cur, a);
		return nfd;
	});
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept4(fd, a, l, 0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t len) {
	return (int)sysc(35, [&]() -> long {
		if (W->mon) W->mon->on_fs(cur, "connect", addr_path(a, len), 0);
		u32 e = faultn(K_CONNECT, 3);
		if (e) return e == 1 ? -ECONNREFUSED : -EAGAIN;
		return k_connect(cur, fd, addr_path(a, len));
	});
}
int sim_getsockopt(int fd, int level, int opt, void *val, socklen_t *len) {
	return (int)sysc(36, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f) return -EBADF;
		if (f->type != F_SOCK) return -ENOTSOCK;
		if (level == SOL_SOCKET && opt == SO_PEERCRED) {
			if (faultn(K_PEERCRED, 2)) return -ENOBUFS;
			struct ucred c = {f->peer_pid, (uid_t)f->peer_uid, (gid_t)f->peer_gid};
			memcpy(val, &c, std::min((size_t)*len, sizeof c));
			return 0;
		}
		if (level == SOL_SOCKET && opt == SO_ERROR) {
			*(int *)val = f->so_err;
			f->so_err = 0;
			return 0;
		}
		return -ENOPROTOOPT;
	});
}
int sim_setsockopt(int fd, int, int, const void *, socklen_t) {
	return (int)sysc(37, [&]() -> long { return fd_get(cur, fd) ? 0 : -EBADF; });
}
int sim_shutdown(int fd, int how) {
	return (int)sysc(38, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f) return -EBADF;
		if (f->type != F_SOCK) return -ENOTSOCK;
		if (how == SHUT_RD || how == SHUT_RDWR) {
			f->shut_rd = true;
			if (f->peer) f->peer->shut_wr = true;
		}
		if (how == SHUT_WR || how == SHUT_RDWR) {
			f->shut_wr = true;
			if (f->peer) f->peer->shut_rd = true;
		}
		return 0;
	});
}
static long do_sendmsg(int fd, const struct msghdr *m, int flags) {
	u32 e;
	if (faultn(K_EINTR, 2)) return -EINTR;
	File *f = fd_get(cur, fd);
	if (f && f->type == F_SOCK && f->connected && !f->peer_gone) {
		if ((cur->is_daemon || W->plan->get("lagain")) && faultn(K_EAGAIN_SEND, 2) && ((flags & MSG_DONTWAIT) || (f->flags & O_NONBLOCK))) {
			g_inject_eagain = true;
			long r = k_sendmsg(cur, fd, m, flags);
			g_inject_eagain = false;
			return r;
		}
		if ((e = faultn(K_SEND_ERR, 3))) {
			int er = e == 1 ? ENOBUFS : ENOMEM;
			if (W->mon) W->mon->on_send_error(cur, f, er);
			return -er;
		}
	}
	long r;
	while ((r = k_sendmsg(cur, fd, m, flags)) == -EAGAIN && f && !(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT))
		if (!wait_file(f, POLLOUT)) return -EINTR;
	return r;
}
static long do_recvmsg(int fd, struct msghdr *m, int flags) {
	if (faultn(K_EINTR, 2)) return -EINTR;
	if (faultn(K_RECV_ERR, 2)) return -ENOMEM;
	File *f = fd_get(cur, fd);
	long r;
	while ((r = k_recvmsg(cur, fd, m, flags)) == -EAGAIN && f && !(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT))
		if (!wait_file(f, POLLIN)) return -EINTR;
	return r;
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) {
	return sysc(39, [&]() -> long {
		long r = do_sendmsg(fd, m, fl);
		trace("sendmsg(%d) = %ld", fd, r);
		if (W->mon) W->mon->on_io(cur, true, fd, r);
		return r;
	});
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) {
	return sysc(40, [&]() -> long {
		long r = do_recvmsg(fd, m, fl);
		trace("recvmsg(%d) = %ld", fd, r);
		if (W->mon) W->mon->on_io(cur, false, fd, r);
		return r;
	});
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) {
	struct iovec v = {(void *)b, n};
	struct msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	return sysc(39, [&]() -> long {
		long r = do_sendmsg(fd, &m, fl);
		if (W->mon) W->mon->on_io(cur, true, fd, r);
		return r;
	});
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
	struct iovec v = {b, n};
	struct msghdr m = {};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	return sysc(40, [&]() -> long {
		long r = do_recvmsg(fd, &m, fl);
		if (W->mon) W->mon->on_io(cur, false, fd, r);
		return r;
	});
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
	struct msghdr m = {};
	m.msg_iov = (struct iovec *)v;
	m.msg_iovlen = c;
	return sysc(40, [&]() -> long {
		long r = do_recvmsg(fd, &m, 0);
		if (W->mon) W->mon->on_io(cur, false, fd, r);
		return r;
	});
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
	File *sf = fd == 1 || fd == 2 ? fd_get(cur, fd) : nullptr;
	if (sf && sf->type == F_NULL && sf->path == "std") {
		ssize_t n = 0;
		for (int i = 0; i < c; i++) {
			out(fd, (const char *)v[i].iov_base, v[i].iov_len);
			n += (ssize_t)v[i].iov_len;
		}
		return n;
	}
	struct msghdr m = {};
	m.msg_iov = (struct iovec *)v;
	m.msg_iovlen = c;
	return sysc(39, [&]() -> long {
		long r = do_sendmsg(fd, &m, 0);
		if (W->mon) W->mon->on_io(cur, true, fd, r);
		return r;
	});
}

// ------------------------------------------------------------------ file system
char *sim_realpath(const char *path, char *res) {
	std::string o;
	long r = sysc(50, [&]() -> long {
		u32 e = faultn(K_REALPATH, 4);
		long q = e ? (e == 1 ? -EACCES : e == 2 ? -EIO : -ENOMEM) : k_realpath(path, o, true);
		if (W->mon) W->mon->on_realpath(cur, path, o, (int)q);
		if (!q && cur->is_daemon) fs_race(o);
		return q;
	});
	if (r < 0) {
		{ std::string tmp; tmp.swap(o); }
		return nullptr;
	}
	if (!res) {
		res = (char *)track(malloc(o.size() + 1), o.size() + 1);
	}
	memcpy(res, o.c_str(), o.size() + 1);
	return res;
}
char *sim_canonicalize_file_name(const char *path) { return sim_realpath(path, nullptr); }
static long do_open(const char *path, int flags) {
	long r = k_open(cur, path, flags);
	if (W->mon) W->mon->on_open(cur, path, r >= 0 ? fd_get(cur, (int)r) : nullptr, flags, (int)r);
	trace("open(%s, %x) = %ld", path, flags, r);
	return r;
}
int sim_open(const char *path, int flags, ...) { return (int)sysc(51, [&]() -> long { return do_open(path, flags); }); }
int sim_openat(int, const char *path, int flags, ...) { return (int)sysc(51, [&]() -> long { return do_open(path, flags); }); }
static void fill_stat(Node *n, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_uid = n->uid;
	st->st_gid = n->gid;
	st->st_mode = n->mode;
	st->st_ino = n->id;
	switch (n->type) {
	case N_REG: st->st_mode |= S_IFREG; break;
	case N_DIR: st->st_mode |= S_IFDIR; break;
	case N_SOCK: st->st_mode |= S_IFSOCK; break;
	case N_LINK: st->st_mode |= S_IFLNK; break;
	case N_EVDEV: st->st_mode |= S_IFCHR; st->st_rdev = makedev(13, 64 + n->minor); break;
	case N_DRM: case N_RENDER: st->st_mode |= S_IFCHR; st->st_rdev = makedev(226, n->minor); break;
	case N_HIDRAW: st->st_mode |= S_IFCHR; st->st_rdev = makedev(240, n->minor); break;
	case N_TTYDEV: st->st_mode |= S_IFCHR; st->st_rdev = makedev(4, n->vt); break;
	default: st->st_mode |= S_IFCHR; st->st_rdev = makedev(1, 3); break;
	}
}
static long do_stat(const char *path, struct stat *st, bool follow) {
	std::string rp;
	if (faultn(K_REALPATH, 2)) return -EACCES;
	long r = k_realpath(path, rp, follow);
	if (r < 0) return r;
	Node *n = fs_lookup(rp);
	if (!n) {
		memset(st, 0, sizeof *st);
		st->st_mode = S_IFDIR | 0755;
		return 0;
	}
	fill_stat(n, st);
	return 0;
}
int sim_stat(const char *p, struct stat *st) { return (int)sysc(52, [&]() -> long { return do_stat(p, st, true); }); }
int sim_lstat(const char *p, struct stat *st) { return (int)sysc(53, [&]() -> long { return do_stat(p, st, false); }); }
int sim_fstat(int fd, struct stat *st) {
	return (int)sysc(54, [&]() -> long {
		File *f = fd_get(cur, fd);
		if (!f) return -EBADF;
		if (faultn(K_REALPATH, 2)) return -EIO;
		if (f->node) fill_stat(f->node, st);
		else {
			memset(st, 0, sizeof *st);
			st->st_mode = f->type == F_SOCK ? S_IFSOCK : S_IFIFO;
		}
		return 0;
	});
}
int sim_fstatat(int, const char *p, struct stat *st, int fl) {
	return (int)sysc(52, [&]() -> long { return do_stat(p, st, !(fl & AT_SYMLINK_NOFOLLOW)); });
}
int sim_access(const char *p, int) {
	return (int)sysc(55, [&]() -> long {
		std::string rp;
		return k_realpath(p, rp, true);
	});
}
static long do_unlink(const char *path) {
	if (faultn(K_UNLINK, 2)) return -EROFS;
	std::string rp;
	long r = k_realpath(path, rp, false);
	if (r < 0) return r;
	Node *n = fs_lookup(rp);
	if (!n) return -EISDIR;
	if (n->type == N_DIR) return -EISDIR;
	if (cur->euid != 0) return -EACCES;
	if (W->mon) W->mon->on_fs(cur, "unlink", rp, 0);
	node_remove(rp);
	return 0;
}
int sim_unlink(const char *p) { return (int)sysc(56, [&]() -> long { return do_unlink(p); }); }
int sim_unlinkat(int, const char *p, int) { return (int)sysc(56, [&]() -> long { return do_unlink(p); }); }
int sim_remove(const char *p) { return sim_unlink(p); }
static long do_chmod(const char *path, mode_t m) {
	if (faultn(K_CHMOD, 2)) return -EROFS;
	std::string rp;
	long r = k_realpath(path, rp, true);
	if (r < 0) return r;
	Node *n = fs_lookup(rp);
	if (!n) return -ENOENT;
	if (cur->euid != 0 && cur->euid != n->uid) return -EPERM;
	n->mode = m & 07777;
	if (W->mon) W->mon->on_fs(cur, "chmod", rp, (int)m);
	return 0;
}
static long do_chown(const char *path, int u, int g, bool follow) {
	if (faultn(K_CHOWN, 2)) return -EROFS;
	std::string rp;
	long r = k_realpath(path, rp, follow);
	if (r < 0) return r;
	Node *n = fs_lookup(rp);
	if (!n) return -ENOENT;
	if (cur->euid != 0) return -EPERM;
	if (u != -1) n->uid = u;
	if (g != -1) n->gid = g;
	if (W->mon) W->mon->on_fs(cur, "chown", rp, 0);
	return 0;
}
int sim_chmod(const char *p, mode_t m) { return (int)sysc(57, [&]() -> long { return do_chmod(p, m); }); }
int sim_chown(const char *p, uid_t u, gid_t g) { return (int)sysc(58, [&]() -> long { return do_chown(p, (int)u, (int)g, true); }); }
int sim_lchown(const char *p, uid_t u, gid_t g) { return (int)sysc(58, [&]() -> long { return do_chown(p, (int)u, (int)g, false); }); }
int sim_fchmod(int fd, mode_t m) {
	return (int)sysc(57, [&]() -> long {
		File *f = fd_get(cur, fd);
		return f && !f->path.empty() ? do_chmod(f->path.c_str(), m) : -EBADF;
	});
}
int sim_fchown(int fd, uid_t u, gid_t g) {
	return (int)sysc(58, [&]() -> long {
		File *f = fd_get(cur, fd);
		return f && !f->path.empty() ? do_chown(f->path.c_str(), (int)u, (int)g, true) : -EBADF;
	});
}
// ------------------------------------------------------------------ relatives of the calls above, for code that is written differently
ssize_t sim_readlink(const char *path, char *buf, size_t n) {
	return sysc(59, [&]() -> long {
		std::string rp;
		if (faultn(K_REALPATH, 2)) return -EIO;
		long r = k_realpath(path, rp, false);
		if (r < 0) return r;
		Node *x = fs_lookup(rp);
		if (!x || x->type != N_LINK) return -EINVAL;
		size_t m = std::min(n, x->target.size());
		memcpy(buf, x->target.data(), m);
		return (long)m;
	});
}
ssize_t sim_readlinkat(int, const char *p, char *b, size_t n) { return sim_readlink(p, b, n); }
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
int sim_eaccess(const char *p, int m) { return sim_access(p, m); }
int sim_fchmodat(int, const char *p, mode_t m, int) { return sim_chmod(p, m); }
int sim_fchownat(int, const char *p, uid_t u, gid_t g, int fl) { return fl & AT_SYMLINK_NOFOLLOW ? sim_lchown(p, u, g) : sim_chown(p, u, g); }
int sim_getpwnam_r(const char *n, struct passwd *pw, char *, size_t, struct passwd **res) {
	struct passwd *x = sim_getpwnam(n);
	if (x) *pw = *x;
	*res = x ? pw : nullptr;
	return 0;
}
int sim_getgrnam_r(const char *n, struct group *gr, char *, size_t, struct group **res) {
	struct group *x = sim_getgrnam(n);
	if (x) *gr = *x;
	*res = x ? gr : nullptr;
	return 0;
}
struct passwd *sim_getpwuid(uid_t u) { return u == 0 ? sim_getpwnam("root") : u == 1000 ? sim_getpwnam("alice") : nullptr; }
struct group *sim_getgrgid(gid_t g) { return g == 0 ? sim_getgrnam("root") : g == 900 ? sim_getgrnam("seat") : nullptr; }
static int exec_list(const char *path, bool search, const char *a0, va_list ap, bool env) {
	std::vector<char *> v;
	v.push_back(const_cast<char *>(a0));
	while (v.back()) v.push_back(va_arg(ap, char *));
	if (env) return sim_execve(path, v.data(), va_arg(ap, char **));
	return search ? sim_execvp(path, v.data()) : sim_execv(path, v.data());
}
int sim_execl(const char *path, const char *a0, ...) {
	va_list ap;
	va_start(ap, a0);
	int r = exec_list(path, false, a0, ap, false);
	va_end(ap);
	return r;
}
int sim_execlp(const char *path, const char *a0, ...) {
	va_list ap;
	va_start(ap, a0);
	int r = exec_list(path, true, a0, ap, false);
	va_end(ap);
	return r;
}
int sim_execle(const char *path, const char *a0, ...) {
	va_list ap;
	va_start(ap, a0);
	int r = exec_list(path, false, a0, ap, true);
	va_end(ap);
	return r;
}
int sim_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx) {
	if (cur->optpos_ == 0 && cur->optind_ < argc && !strncmp(argv[cur->optind_], "--", 2) && argv[cur->optind_][2]) {
		const char *a = argv[cur->optind_] + 2;
		sim_optind = ++cur->optind_;
		for (int i = 0; lo && lo[i].name; i++) {
			size_t n = strlen(lo[i].name);
			if (strncmp(a, lo[i].name, n) || (a[n] && a[n] != '=')) continue;
			sim_optarg = a[n] ? const_cast<char *>(a) + n + 1 : nullptr;
			if (lo[i].has_arg == 1 && !sim_optarg) {
				if (cur->optind_ >= argc) return '?';
				sim_optarg = argv[cur->optind_++];
				sim_optind = cur->optind_;
			}
			if (idx) *idx = i;
			if (!lo[i].flag) return lo[i].val;
			*lo[i].flag = lo[i].val;
			return 0;
		}
		return '?';
	}
	return sim_getopt(argc, argv, opts);
}
static long name_of(File *f, struct sockaddr *a, socklen_t *l) {
	struct sockaddr_un un;
	memset(&un, 0, sizeof un);
	un.sun_family = AF_UNIX;
	snprintf(un.sun_path, sizeof un.sun_path, "%s", f->path.c_str());
	socklen_t n = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + (f->path.empty() ? 0 : f->path.size() + 1));
	memcpy(a, &un, std::min(*l, n));
	*l = n;
	return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) {
	return (int)sysc(45, [&]() -> long {
		File *f = fd_get(cur, fd);
		return !f ? -EBADF : f->type != F_SOCK ? -ENOTSOCK : name_of(f, a, l);
	});
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
	return (int)sysc(45, [&]() -> long {
		File *f = fd_get(cur, fd);
		return !f ? -EBADF : f->type != F_SOCK ? -ENOTSOCK : name_of(f, a, l);
	});
}
int sim_clock_nanosleep(clockid_t, int, const struct timespec *a, struct timespec *b) { return sim_nanosleep(a, b) ? errno : 0; }
int sim_pause(void) { return (int)sysc(14, [&]() -> long { return do_sleep(~0ull >> 2); }); }
int sim_close_range(unsigned a, unsigned b, int) {
	for (size_t i = a; i <= b && i < cur->fds.size(); i++)
		if (fd_get(cur, (int)i)) sim_close((int)i);
	return 0;
}
void sim_closefrom(int a) { sim_close_range((unsigned)a, ~0u, 0); }
int sim_waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
	int st = 0;
	pid_t r = do_waitpid(t == P_PID ? (pid_t)id : -1, &st, opt & WNOHANG);
	if (r < 0) return -1;
	if (si) {
		memset(si, 0, sizeof *si);
		si->si_pid = r;
		if (r) {
			si->si_signo = SIGCHLD;
			si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED;
			si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
		}
	}
	return 0;
}
long sim_sysconf(int) { return 1024; }
} // extern "C"
long simx_now_ms(void) { return (long)(W->now / 1000000); }
