#pragma once
#include "sim.h"
#include <poll.h>
#include <sys/un.h>
struct ExecEntry {
	std::string name;
	Image img;
	std::function<int(int, char **)> main;
};
extern std::map<std::string, ExecEntry> exec_reg;
extern std::string last_assert;
extern int next_actor_id;
int alloc_actor();
extern "C" {
int sim_close(int);
int sim_accept4(int, struct sockaddr *, socklen_t *, int);
int sim_bind(int, const struct sockaddr *, socklen_t);
int sim_listen(int, int);
int sim_socket(int, int, int);
int sim_socketpair(int, int, int, int[2]);
int sim_connect(int, const struct sockaddr *, socklen_t);
ssize_t sim_sendmsg(int, const struct msghdr *, int);
ssize_t sim_recvmsg(int, struct msghdr *, int);
ssize_t sim_send(int, const void *, size_t, int);
ssize_t sim_recv(int, void *, size_t, int);
ssize_t sim_read(int, void *, size_t);
ssize_t sim_write(int, const void *, size_t);
int sim_poll(struct pollfd *, nfds_t, int);
int sim_shutdown(int, int);
int sim_pipe(int[2]);
int sim_usleep(useconds_t);
int sim_open(const char *, int, ...);
int sim_fcntl(int, int, ...);
void *sim_malloc(size_t);
void sim_free(void *);
char *sim_strdup(const char *);
int sim_kill(pid_t, int);
pid_t sim_getpid(void);
pid_t sim_waitpid(pid_t, int *, int);
int sim_sched_yield(void);
void sim_exit(int) __attribute__((noreturn));
int sim_sigaction(int, const struct sigaction *, struct sigaction *);
}
