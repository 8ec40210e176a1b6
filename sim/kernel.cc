// Simulated kernel: descriptors, pipes, unix sockets, file system, devices, VTs.
#include "sim.h"
#include <algorithm>
#include <fcntl.h>
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#define DRM_SET_MASTER _IO('d', 0x1e)
#define DRM_DROP_MASTER _IO('d', 0x1f)
#define HIDREVOKE _IOW('H', 0x0D, int)

// ------------------------------------------------------------------ files
File *file_new(FType t) {
	File *f = new File;
	f->type = t;
	f->id = W->next_file++;
	W->files.insert(f);
	return f;
}
void file_ref(File *f) { f->ref++; }
static void sock_release(File *f);
static void dev_release(File *f);
void bus_release(File *f);
void file_unref(File *f) {
	if (--f->ref > 0) return;
	switch (f->type) {
	case F_SOCK: sock_release(f); break;
	case F_PIPE_R:
	case F_PIPE_W:
		if (f->type == F_PIPE_R) f->pipe->readers--;
		else f->pipe->writers--;
		if (f->pipe->readers == 0 && f->pipe->writers == 0) delete f->pipe;
		break;
	case F_EVDEV:
	case F_DRM:
	case F_HIDRAW: dev_release(f); break;
	case F_BUS: bus_release(f); break;
	default: break;
	}
	W->files.erase(f);
	delete f;
}
File *fd_get(Proc *p, int fd) {
	if (fd < 0 || (size_t)fd >= p->fds.size()) return nullptr;
	return p->fds[fd].f;
}
int fd_install(Proc *p, File *f, bool cloexec, int min) {
	for (int i = min; i < p->fd_limit; i++) {
		if ((size_t)i >= p->fds.size()) p->fds.resize(i + 1);
		if (!p->fds[i].f) {
			p->fds[i].f = f;
			p->fds[i].cloexec = cloexec;
			return i;
		}
	}
	return -EMFILE;
}
long k_close(Proc *p, int fd) {
	File *f = fd_get(p, fd);
	if (!f) {
		if (fd != -1 && W->mon) W->mon->on_close_bad(p, fd);
		return -EBADF;
	}
	if (W->mon) W->mon->on_close(p, fd, f);
	p->fds[fd].f = nullptr;
	file_unref(f);
	return 0;
}
bool g_inject_eagain;
std::string proc_tag(Proc *p) { return p->name; }

// ------------------------------------------------------------------ poll
static size_t sock_space(File *f) {
	if (!f->peer) return 0;
	return f->peer->rxbytes >= f->cap ? 0 : f->cap - f->peer->rxbytes;
}
short bus_poll(File *f);
short file_poll(File *f) {
	short r = 0;
	switch (f->type) {
	case F_PIPE_R:
		if (!f->pipe->data.empty()) r |= POLLIN;
		if (f->pipe->writers == 0) r |= POLLHUP;
		break;
	case F_PIPE_W:
		if (f->pipe->data.size() < f->pipe->cap) r |= POLLOUT;
		if (f->pipe->readers == 0) r |= POLLERR;
		break;
	case F_SOCK:
		if (f->listening) {
			if (!f->acceptq.empty()) r |= POLLIN;
			if (f->shut_rd) r |= POLLHUP | POLLIN;
			break;
		}
		if (!f->connected) {
			r |= POLLOUT | POLLHUP;
			break;
		}
		if (!f->rx.empty() || f->shut_rd || f->peer_gone) r |= POLLIN;
		if (f->so_err) r |= POLLERR;
		if (f->peer_gone || (f->shut_rd && f->shut_wr)) r |= POLLHUP;
		if (f->peer_gone || f->shut_wr || sock_space(f) * 4 >= f->cap * 3 || (f->peer && f->peer->rxbytes == 0)) r |= POLLOUT;
		break;
	case F_EVDEV:
	case F_HIDRAW:
		if (f->revoked || !f->node->exist) r |= POLLHUP | POLLERR;
		r |= POLLOUT;
		break;
	case F_BUS: r = bus_poll(f); break;
	default: r |= POLLIN | POLLOUT; break;
	}
	return r;
}

// ------------------------------------------------------------------ sockets
static void sock_drop_rx(File *f) {
	std::vector<File *> drop;
	for (auto &s : f->rx)
		for (auto x : s.fds) drop.push_back(x);
	f->rx.clear();
	f->rxbytes = 0;
	for (auto x : drop) file_unref(x);
}
static void sock_release(File *f) {
	if (W->mon) W->mon->on_sock_release(f);
	if (f->listening) {
		if (f->node && f->node->listener == f) f->node->listener = nullptr;
		while (!f->acceptq.empty()) {
			File *a = f->acceptq.front();
			f->acceptq.pop_front();
			if (a->peer) a->peer->so_err = ECONNRESET;
			file_unref(a);
		}
	} else if (f->node && f->node->listener == f) f->node->listener = nullptr;
	if (f->peer) {
		File *q = f->peer;
		q->peer_gone = true;
		q->peer = nullptr;
		if (!f->rx.empty()) q->so_err = ECONNRESET;
		f->peer = nullptr;
	}
	sock_drop_rx(f);
}
static void sock_pair(File *a, File *b) {
	a->connected = b->connected = true;
	a->peer = b;
	b->peer = a;
	a->cap = b->cap = W->sock_cap;
}
long k_socket(Proc *p, int type) {
	File *f = file_new(F_SOCK);
	f->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
	int fd = fd_install(p, f, type & SOCK_CLOEXEC);
	if (fd < 0) file_unref(f);
	return fd;
}
static void set_peercred(File *f, Proc *p) { f->peer_pid = p->pid, f->peer_uid = p->euid, f->peer_gid = p->egid; }
long k_socketpair(Proc *p, int type, int sv[2]) {
	File *a = file_new(F_SOCK), *b = file_new(F_SOCK);
	a->flags = b->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
	sock_pair(a, b);
	set_peercred(a, p);
	set_peercred(b, p);
	int x = fd_install(p, a, type & SOCK_CLOEXEC);
	if (x < 0) {
		file_unref(a);
		file_unref(b);
		return x;
	}
	int y = fd_install(p, b, type & SOCK_CLOEXEC);
	if (y < 0) {
		k_close(p, x);
		file_unref(b);
		return y;
	}
	sv[0] = x;
	sv[1] = y;
	return 0;
}
static bool may_access(Proc *p, Node *n, int want) {
	if (p->euid == 0) return true;
	int m = p->euid == n->uid ? n->mode >> 6 : p->egid == n->gid ? n->mode >> 3 : n->mode;
	return (m & want) == want;
}
long k_connect(Proc *p, int fd, const std::string &path) {
	File *f = fd_get(p, fd);
	if (!f) return -EBADF;
	if (f->type != F_SOCK) return -ENOTSOCK;
	if (f->connected) return -EISCONN;
	std::string rp;
	long r = k_realpath(path, rp, true);
	if (r < 0) return r;
	Node *n = fs_lookup(rp);
	if (!n) return -ENOENT;
	if (!may_access(p, n, 2)) return -EACCES;
	if (n->type != N_SOCK || !n->listener || !n->listener->listening) return -ECONNREFUSED;
	File *l = n->listener;
	if ((int)l->acceptq.size() > l->backlog) return -EAGAIN;
	File *a = file_new(F_SOCK);
	a->flags = O_RDWR;
	sock_pair(f, a);
	set_peercred(a, p);
	a->is_accepted = true;
	l->acceptq.push_back(a);
	return 0;
}
long k_sendmsg(Proc *p, int fd, const struct msghdr *m, int flags) {
	File *f = fd_get(p, fd);
	if (!f) return -EBADF;
	if (f->type != F_SOCK) return -ENOTSOCK;
	std::string d;
	for (size_t i = 0; i < m->msg_iovlen; i++) d.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	std::vector<File *> fds;
	if (m->msg_control && m->msg_controllen >= sizeof(struct cmsghdr)) {
		for (struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR(const_cast<struct msghdr *>(m), c)) {
			if (c->cmsg_len < CMSG_LEN(0) || c->cmsg_len > m->msg_controllen) return -EINVAL;
			if (c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) return -EINVAL;
			size_t n = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
			if (n > 253) return -EINVAL;
			for (size_t i = 0; i < n; i++) {
				int v;
				memcpy(&v, CMSG_DATA(c) + i * sizeof(int), sizeof v);
				File *g = fd_get(p, v);
				if (!g) return -EBADF;
				fds.push_back(g);
			}
		}
	}
	if (!f->connected) return -ENOTCONN;
	if (f->peer_gone || f->shut_wr || (f->peer && f->peer->shut_rd)) {
		if (!(flags & MSG_NOSIGNAL)) post_signal(p, SIGPIPE);
		if (W->mon) W->mon->on_send_error(p, f, EPIPE);
		return -EPIPE;
	}
	if (f->so_err) {
		int e = f->so_err;
		f->so_err = 0;
		return -e;
	}
	if (d.empty()) return 0;
	size_t sp = sock_space(f);
	if (sp == 0 || g_inject_eagain) {
		g_inject_eagain = false;
		if (W->mon) W->mon->on_send(p, f, d, fds, -EAGAIN);
		W->probe["send.full"]++;
		return -EAGAIN; // blocking senders retry in the shim
	}
	size_t n = std::min(sp, d.size());
	if (n < d.size()) W->probe["send.partial_full"]++;
	if (n > 1 && faultn(K_SHORT_WRITE, 2)) n = 1 + (decide(p->actor, K_MISC, (u32)n - 1, 1.0) % (n - 1));
	Skb s;
	s.data = d.substr(0, n);
	for (auto g : fds) {
		file_ref(g);
		s.fds.push_back(g);
	}
	f->peer->rxbytes += n;
	f->peer->rx.push_back(s);
	u64 ch = n;
	for (unsigned char x : s.data) ch = (ch ^ x) * 0x100000001b3ull;
	mixh(0x5e4d ^ ch ^ ((u64)fds.size() << 20));
	if (W->mon) W->mon->on_send(p, f, d, fds, (long)n);
	return (long)n;
}
long k_recvmsg(Proc *p, int fd, struct msghdr *m, int flags) {
	File *f = fd_get(p, fd);
	if (!f) return -EBADF;
	if (f->type != F_SOCK) return -ENOTSOCK;
	if (!f->connected) return -EINVAL;
	size_t want = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) want += m->msg_iov[i].iov_len;
	if (f->rx.empty()) {
		if (f->so_err) {
			int e = f->so_err;
			f->so_err = 0;
			return -e;
		}
		if (f->shut_rd || f->peer_gone) {
			m->msg_controllen = 0;
			m->msg_flags = 0;
			if (W->mon) W->mon->on_recv_eof(p, f);
			return 0;
		}
		return -EAGAIN;
	}
	bool peek = flags & MSG_PEEK;
	size_t lim = want;
	if (lim > 1 && !peek) {
		size_t avail = std::min(lim, f->rxbytes);
		if (avail > 1 && faultn(K_SHORT_READ, 2)) lim = 1 + decide(p->actor, K_MISC, (u32)avail - 1, 1.0) % (avail - 1);
	}
	std::string out;
	std::vector<File *> fds;
	size_t idx = 0;
	while (out.size() < lim && idx < f->rx.size()) {
		Skb &s = f->rx[idx];
		bool had = !s.fds.empty();
		if (!peek) {
			for (auto x : s.fds) fds.push_back(x);
			s.fds.clear();
		}
		size_t n = std::min(lim - out.size(), s.data.size() - s.off);
		out.append(s.data, s.off, n);
		if (peek) {
			idx++;
			continue;
		}
		s.off += n;
		f->rxbytes -= n;
		if (s.off < s.data.size()) break;
		f->rx.pop_front();
		if (had) break;
	}
	// scatter
	size_t o = 0;
	for (size_t i = 0; i < m->msg_iovlen && o < out.size(); i++) {
		size_t n = std::min(m->msg_iov[i].iov_len, out.size() - o);
		memcpy(m->msg_iov[i].iov_base, out.data() + o, n);
		o += n;
	}
	m->msg_flags = 0;
	mixh(0x4ecf ^ out.size() ^ ((u64)fds.size() << 20));
	if (W->mon) W->mon->on_recv(p, f, out.data(), out.size(), fds);
	if (!fds.empty()) {
		size_t room = m->msg_control && m->msg_controllen >= CMSG_LEN(sizeof(int)) ? (m->msg_controllen - CMSG_LEN(0)) / sizeof(int) : 0;
		size_t n = 0;
		std::vector<int> nums;
		for (; n < fds.size() && n < room; n++) {
			int nf = fd_install(p, fds[n], flags & MSG_CMSG_CLOEXEC);
			if (nf < 0) {
				if (W->mon) W->mon->on_no_fd(p);
				break;
			}
			nums.push_back(nf);
		}
		if (n < fds.size()) {
			m->msg_flags |= MSG_CTRUNC;
			W->probe["recv.ctrunc"]++;
		}
		for (size_t i = n; i < fds.size(); i++) file_unref(fds[i]);
		if (n) {
			struct cmsghdr *c = (struct cmsghdr *)m->msg_control;
			c->cmsg_level = SOL_SOCKET;
			c->cmsg_type = SCM_RIGHTS;
			c->cmsg_len = CMSG_LEN(n * sizeof(int));
			memcpy(CMSG_DATA(c), nums.data(), n * sizeof(int));
			size_t sp = CMSG_SPACE(n * sizeof(int));
			m->msg_controllen = std::min((size_t)m->msg_controllen, sp);
		} else m->msg_controllen = 0;
	} else m->msg_controllen = 0;
	return (long)out.size();
}

// ------------------------------------------------------------------ file system
Node *node_new(const std::string &path, NType t, int mode, int uid, int gid) {
	Node *n = new Node;
	n->type = t;
	n->mode = mode;
	n->uid = uid;
	n->gid = gid;
	static int idc;
	n->id = (int)W->fs.size() + 1;
	(void)idc;
	auto it = W->fs.find(path);
	if (it != W->fs.end()) {
		W->dead_nodes.push_back(it->second);
		it->second = n;
	} else W->fs[path] = n;
	return n;
}
void node_remove(const std::string &path) {
	auto it = W->fs.find(path);
	if (it == W->fs.end()) return;
	W->dead_nodes.push_back(it->second);
	W->fs.erase(it);
}
Node *fs_lookup(const std::string &path) {
	auto it = W->fs.find(path);
	return it == W->fs.end() ? nullptr : it->second;
}
static bool is_dir(const std::string &path) {
	if (path == "/" || path.empty()) return true;
	auto it = W->fs.find(path);
	if (it != W->fs.end()) return it->second->type == N_DIR;
	std::string pre = path + "/";
	it = W->fs.lower_bound(pre);
	return it != W->fs.end() && it->first.compare(0, pre.size(), pre) == 0;
}
long k_realpath(const std::string &in, std::string &out, bool follow_last) {
	if (in.empty()) return -ENOENT;
	if (in.size() >= 4096) return -ENAMETOOLONG;
	std::deque<std::string> todo;
	auto split = [](const std::string &s) {
		std::vector<std::string> v;
		size_t i = 0;
		while (i < s.size()) {
			size_t j = s.find('/', i);
			if (j == std::string::npos) j = s.size();
			if (j > i) v.push_back(s.substr(i, j - i));
			i = j + 1;
		}
		return v;
	};
	for (auto &c : split(in)) todo.push_back(c);
	bool trailing = in.back() == '/';
	std::string curp; // "" == "/"
	int links = 0;
	while (!todo.empty()) {
		std::string c = todo.front();
		todo.pop_front();
		if (c == ".") {
			if (!is_dir(curp)) return -ENOTDIR;
			continue;
		}
		if (c == "..") {
			if (!is_dir(curp)) return -ENOTDIR;
			size_t k = curp.rfind('/');
			curp = k == std::string::npos ? "" : curp.substr(0, k);
			continue;
		}
		if (c.size() > 255) return -ENAMETOOLONG;
		if (!is_dir(curp)) return fs_lookup(curp) ? -ENOTDIR : -ENOENT;
		std::string nx = curp + "/" + c;
		Node *n = fs_lookup(nx);
		if (n && n->type == N_LINK && (!todo.empty() || follow_last || trailing)) {
			if (++links > 40) return -ELOOP;
			auto v = split(n->target);
			for (size_t i = v.size(); i-- > 0;) todo.push_front(v[i]);
			if (!n->target.empty() && n->target[0] == '/') curp = "";
			continue;
		}
		if (!n && !is_dir(nx)) {
			if (todo.empty() && !follow_last) {
				out = nx;
				return -ENOENT;
			}
			return -ENOENT;
		}
		curp = nx;
	}
	if (trailing && !is_dir(curp)) return -ENOTDIR;
	out = curp.empty() ? "/" : curp;
	return 0;
}

// ------------------------------------------------------------------ devices
bool is_dev(File *f) { return f->type == F_EVDEV || f->type == F_DRM || f->type == F_HIDRAW; }
bool dev_live(File *f) {
	switch (f->type) {
	case F_EVDEV:
	case F_HIDRAW: return !f->revoked && f->node->exist;
	case F_DRM: return f->node->master == f && f->node->exist;
	default: return false;
	}
}
static void dev_release(File *f) {
	if (W->mon) W->mon->on_dev_release(f);
	f->node->opens--;
	if (f->node->master == f) f->node->master = nullptr;
}
void dev_unplug(Node *n) { n->exist = false; }

// Replaces the device by a link after its path was resolved; fs_race_end() puts it back.
void fs_race(const std::string &path) {
	Node *n = fs_lookup(path);
	if (!n || n->type < N_EVDEV || n->type > N_HIDRAW || !n->exist || !W->race_path.empty()) return;
	static const char *t[] = {"/etc/shadow", "/dev/mem", "/dev/input/event1", "../mem", "/dev/dri/card1"};
	u32 e = faultn(K_FSRACE, 5);
	if (!e) return;
	W->race_path = path;
	W->race_type = n->type;
	W->race_minor = n->minor;
	node_new(path, N_LINK, 0777, 0, 0)->target = t[e - 1];
	if (W->mon) W->mon->on_fs_change();
}
void fs_race_end() {
	if (W->race_path.empty()) return;
	node_new(W->race_path, (NType)W->race_type, 0600, 0, 0)->minor = W->race_minor;
	std::string().swap(W->race_path);
	if (W->mon) W->mon->on_fs_change();
}

long k_open(Proc *p, const std::string &path, int flags) {
	std::string rp;
	bool nofollow = flags & O_NOFOLLOW, link = false;
	long r = k_realpath(path, rp, false);
	if (!r) {
		Node *l = fs_lookup(rp);
		link = l && l->type == N_LINK;
	}
	r = k_realpath(path, rp, !nofollow);
	if (r < 0) {
		if (r == -ENOENT && (flags & O_CREAT)) return -EACCES;
		return r;
	}
	Node *n = fs_lookup(rp);
	if (!n) {
		if (is_dir(rp)) return (flags & O_ACCMODE) == O_RDONLY ? -EACCES : -EISDIR;
		return -ENOENT;
	}
	if (n->type == N_LINK) return -ELOOP;
	if (n->type == N_DIR) return -EISDIR;
	if (n->type == N_SOCK) return -ENXIO;
	int acc = flags & O_ACCMODE;
	int want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
	if (!may_access(p, n, want)) return -EACCES;
	if (n->type == N_EVDEV || n->type == N_DRM || n->type == N_RENDER || n->type == N_HIDRAW) {
		if (!n->exist) return -ENODEV;
		u32 e = faultn(K_OPEN_DEV, 5);
		if (e) return e == 1 ? -EBUSY : e == 2 ? -EACCES : e == 3 ? -ENODEV : -EMFILE;
	}
	if (n->type == N_TTYDEV) {
		u32 e = faultn(K_OPEN_TTY, 4);
		if (e) {
			int vt = n->vt == 0 ? W->fg : n->vt;
			if (W->mon) W->mon->on_tty_ioctl(p, n->vt, 0, 0, -EIO, true);
			(void)vt;
			return e == 1 ? -EIO : e == 2 ? -EMFILE : -EACCES;
		}
	}
	static const FType map[] = {F_REG, F_REG, F_REG, F_REG, F_EVDEV, F_DRM, F_DRM, F_HIDRAW, F_TTY, F_NULL};
	File *f = file_new(map[n->type]);
	f->flags = flags & (O_ACCMODE | O_NONBLOCK);
	f->path = rp;
	f->node = n;
	f->opener = p->pid;
	f->opened_nofollow = nofollow;
	f->via_link = link;
	if (n->type == N_TTYDEV) f->vt = n->vt == 0 ? W->fg : n->vt;
	if (is_dev(f)) {
		n->opens++;
		if (n->type == N_DRM && !n->master) n->master = f; // first opener becomes master
	}
	int fd = fd_install(p, f, flags & O_CLOEXEC);
	if (fd < 0) {
		file_unref(f);
		return fd;
	}
	if (f->type == F_TTY && f->vt > 0 && f->vt < 16) W->vt[f->vt].allocated = true;
	return fd;
}

// ------------------------------------------------------------------ virtual terminals (as in drivers/tty/vt)
static void reset_vc(VT &v) {
	v.kd = KD_TEXT;
	v.kb = K_UNICODE;
	v.process = false;
	v.pid = 0;
	v.relsig = v.acqsig = 0;
	v.newvt = -1;
}
static bool kill_pid(int pid, int sig) {
	Proc *p = pid ? proc_find(pid) : nullptr;
	if (!p || p->st == P_ZOMBIE || p->st == P_DEAD) return false;
	post_signal(p, sig);
	return true;
}
static void complete_change_console(int n) {
	int old = W->fg;
	W->fg = n;
	W->vt_switches++;
	trace("kernel: console switched %d -> %d", old, n);
	mixh(0x7c0 + n);
	VT &v = W->vt[n];
	v.allocated = true;
	if (W->mon) W->mon->on_vt_switched(old, n);
	if (v.process && !kill_pid(v.pid, v.acqsig)) reset_vc(v);
}
void vt_change_console(int n) {
	if (n == W->fg) return;
	VT &v = W->vt[W->fg];
	if (v.process) {
		int old = v.newvt;
		v.newvt = n;
		if (kill_pid(v.pid, v.relsig)) {
			trace("kernel: release of VT %d requested (to %d)", W->fg, n);
			if (old < 0 && W->mon) W->mon->on_vt_release_req(W->fg, n);
			return;
		}
		reset_vc(v);
	}
	if (v.kd == KD_GRAPHICS) return;
	complete_change_console(n);
}
void vt_set_console(int n) {
	if (n < 1 || n > 12) return;
	W->vt[n].allocated = true;
	W->want_vt = n;
	double r = W->plan->rate.size() > K_VTDELAY ? W->plan->rate[K_VTDELAY] : 0;
	u32 d = decide(0, K_VTDELAY, 6, r);
	auto go = [] {
		int w = W->want_vt;
		W->want_vt = -1;
		if (w > 0 && w != W->fg) vt_change_console(w);
	};
	if (!d) go();
	else W->timers.push_back({W->now + d * 3000, go});
}

long k_ioctl(Proc *p, int fd, unsigned long req, void *arg) {
	File *f = fd_get(p, fd);
	if (!f) return -EBADF;
	req &= 0xffffffffu;
	if (is_dev(f)) {
		long r = -ENOTTY;
		bool inj = false;
		bool known = (f->type == F_EVDEV && req == (u32)EVIOCREVOKE) || (f->type == F_HIDRAW && req == (u32)HIDREVOKE) ||
			(f->type == F_DRM && (req == (u32)DRM_SET_MASTER || req == (u32)DRM_DROP_MASTER));
		if (known && faultn(K_IOCTL_DEV, 2)) {
			r = -EINVAL;
			inj = true;
			f->tainted = true;
			if (f->node) f->node->tainted = true;
		} else if (!f->node->exist) r = -ENODEV;
		else if (f->type == F_EVDEV && req == (u32)EVIOCREVOKE) {
			if (f->revoked) r = -ENODEV;
			else f->revoked = true, r = 0;
		} else if (f->type == F_HIDRAW && req == (u32)HIDREVOKE) {
			if (f->revoked) r = -ENODEV;
			else f->revoked = true, r = 0;
		} else if (f->type == F_DRM && req == (u32)DRM_SET_MASTER) {
			if (f->node->type == N_RENDER) r = -EACCES;
			else if (f->node->master == f) r = 0;
			else if (f->node->master) {
				r = -EBUSY;
				if (f->node->master->tainted) f->tainted = true; // could not be made to let go of it
			}
			else f->node->master = f, r = 0;
		} else if (f->type == F_DRM && req == (u32)DRM_DROP_MASTER) {
			if (f->node->type == N_RENDER) r = -EACCES;
			else if (f->node->master != f) r = -EINVAL;
			else f->node->master = nullptr, r = 0;
		}
		if (W->mon) W->mon->on_dev_ioctl(p, f, req, (int)r, inj);
		return r;
	}
	if (f->type != F_TTY) return -ENOTTY;
	VT &v = W->vt[f->vt];
	if (faultn(K_IOCTL_TTY, 2) || ((req == KDSETMODE || req == KDSKBMODE) && faultn(K_IOCTL_KD, 2))) {
		if (W->mon) W->mon->on_tty_ioctl(p, f->vt, req, (long)arg, -EIO, true);
		return -EIO;
	}
	long r = 0;
	switch (req) {
	case VT_GETSTATE: {
		struct vt_stat *s = (struct vt_stat *)arg;
		memset(s, 0, sizeof *s);
		s->v_active = (unsigned short)W->fg;
		s->v_state = 1;
		for (int i = 1; i < 16; i++)
			if (W->vt[i].allocated) s->v_state |= (unsigned short)(1 << i);
		break;
	}
	case VT_GETMODE: {
		struct vt_mode *m = (struct vt_mode *)arg;
		memset(m, 0, sizeof *m);
		m->mode = v.process ? VT_PROCESS : VT_AUTO;
		m->relsig = (short)v.relsig;
		m->acqsig = (short)v.acqsig;
		break;
	}
	case VT_SETMODE: {
		struct vt_mode *m = (struct vt_mode *)arg;
		if (m->mode != VT_AUTO && m->mode != VT_PROCESS) {
			r = -EINVAL;
			break;
		}
		if (v.newvt >= 0) W->probe["vt.release_cancelled_by_setmode"]++;
		v.process = m->mode == VT_PROCESS;
		v.relsig = m->relsig;
		v.acqsig = m->acqsig;
		v.pid = p->pid;
		v.newvt = -1;
		break;
	}
	case VT_ACTIVATE: {
		long n = (long)arg;
		if (n <= 0 || n > 63) {
			r = -ENXIO;
			break;
		}
		vt_set_console((int)n);
		break;
	}
	case VT_WAITACTIVE: break;
	case VT_RELDISP:
		if (!v.process) r = -EINVAL;
		else if (v.newvt >= 0) {
			if ((long)arg == 0) v.newvt = -1;
			else {
				int n = v.newvt;
				v.newvt = -1;
				// on_tty_ioctl must see the state before the switch
				if (W->mon) W->mon->on_tty_ioctl(p, f->vt, req, (long)arg, 1, false);
				complete_change_console(n);
				return 0;
			}
		} else if ((long)arg != VT_ACKACQ) r = -EINVAL;
		break;
	case KDSETMODE:
		if ((long)arg != KD_TEXT && (long)arg != KD_GRAPHICS) r = -EINVAL;
		else v.kd = (int)(long)arg;
		break;
	case KDGETMODE: *(int *)arg = v.kd; break;
	case KDSKBMODE:
		if ((long)arg < 0 || (long)arg > 4) r = -EINVAL;
		else v.kb = (int)(long)arg;
		break;
	case KDGKBMODE: *(int *)arg = v.kb; break;
	default: r = -ENOTTY;
	}
	if (W->mon) W->mon->on_tty_ioctl(p, f->vt, req, (long)arg, (int)r, false);
	return r;
}
