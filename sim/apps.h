#pragma once
#include "oracle.h"
#include "shim.h"
#include "logind.h"
// Actors of the simulated world which are not code under test, plus the application that drives
// libseat. Actor numbers: 0 kernel, 1 daemon, 2 environment, 3 fake daemon, 10.. clients.
enum Phase { PH_MAIN, PH_HEAL, PH_TOUR, PH_END };
enum Cls { CLS_RAW, CLS_APP };
enum Backend { B_SEATD, B_BUILTIN, B_LOGIND, B_NOOP, B_AUTO };
struct libseat;
struct Cli {
	int actor = 0;
	Cls cls = CLS_RAW;
	Proc *p = nullptr;
	int pid = 0;
	std::vector<Op *> ops;
	bool ops_done = false;
	int ack = 0; // 0 at once, 1 on request or when healing
	int end = 0;
	bool dead = false;
	// raw client
	int fd = -1;
	bool stalled = false, eof = false;
	std::string in;
	int owed = 0;
	std::vector<int> ids, fds;
	std::vector<int> crowd; // further connections without a seat
	// application
	Backend be = B_SEATD, be_conf = B_SEATD;
	struct libseat *seat = nullptr;
	struct libseat *cb_seat = nullptr; // as seen by callbacks
	Conn *conn = nullptr;
	std::string evs; // delivered callbacks
	std::vector<std::pair<const char *, int>> calls; // running calls
	bool app_owe = false;
	std::vector<std::pair<int, int>> devs; // id, fd
	std::vector<std::string> dev_paths;
	size_t matched = 0; // replies consumed
	size_t pongs = 0;
	bool maybe = false;   // a fault was injected: the connection may have failed
	bool broken = false;  // the connection failed
	int bad_dispatch = 0; // dispatches that returned >= 0 after the peer was gone
	size_t base_fds = 0;
	long base_allocs = 0;
	u64 faults_at_open = 0;
	u64 faults = 0; // injected into this process
	u64 cb_first_block = 0, cb_first_poll = 0;
	bool cb_ran = false;
	bool cb_calls = false;
	int in_cb = 0;
	int opens = 0;
	bool open_failed = false;
	bool stopped_once = false;
	bool reopen_in_enable = false;
	bool gone = false;
	// logind
	bool first_dispatched = false;
	int open_active = -1, on_at_open = 0, off_at_open = 0;
	int completes = 0;
	u64 bus_faults_at_open = 0;
};
struct Game {
	int phase = PH_MAIN;
	std::vector<Cli *> clis;
	Proc *daemon = nullptr;
	Proc *fake = nullptr;
	std::string sock = "/run/seatd.sock";
	std::map<std::string, long> count;
	bool fake_bad = false;
	~Game() {
		for (auto c : clis) delete c;
	}
};
extern Game *G;
void setup_fs();
std::string xsock_path(int k);
std::string dev_path(long i);
Proc *spawn_daemon(int actor, const std::vector<std::string> &args, bool vt_bound, int ppid = 0);
Cli *spawn_client(int actor);
Proc *spawn_env();
Proc *spawn_fake();
void wait_for(File *f, short ev, u64 deadline, int ph);
std::vector<Op *> ops_of(int actor);
void app_checks_quiescent();
bool app_may_wait(Cli *c); // an endless dispatch may wait
bool daemon_ready();
extern "C" {
int S_main(int, char **);
int W_main(int, char **);
}
