From 0e3d09d896ac80e86592baa98aed9fc23ac47d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 01/47] fix: return the existing device when a device is opened
 again

seat_open_device took a reference on the already open device but returned
NULL, so that the client received an error and the reference leaked, keeping
the device open after the client closed it.
---
 seatd/seat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..afa78b8 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -358,9 +358,11 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 	     elem = elem->next) {
 		struct seat_device *old_device = (struct seat_device *)elem;
 
-		if (strcmp(old_device->path, sanitized_path) == 0) {
+		// Deactivated devices may be permanently revoked, in which case
+		// the path must be opened anew.
+		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From 6782a87f2afd9b9263444e6f9cbb17ce9ce49ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 02/47] fix: clean up the VT of the removed client

When the active client was removed, the VT currently in the foreground was
cleaned up instead of the VT of that client, and no VT was cleaned up if the
removal activated a client on another VT. A client that disconnected after its
VT was released left its VT in graphics mode with the keyboard disabled, and
made seatd abort on opening VT -1.
---
 seatd/seat.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index afa78b8..5e09384 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -264,24 +264,18 @@ void seat_remove_client(struct client *client) {
 		}
 	}
 
-	bool was_current = seat->active_client == client;
-	if (was_current) {
+	if (seat->active_client == client) {
 		seat->active_client = NULL;
 		seat_activate(seat);
 	}
 
-	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+	if (seat->vt_bound && (seat->active_client == NULL ||
+			       seat->active_client->session != client->session)) {
+		// No other client has taken over the VT of this client, so
+		// clean it up. Note that this is not necessarily the current
+		// VT, as the client may be removed at any point of a switch.
+		log_debugf("Closing VT %d", client->session);
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 766cea5f5b4176fdde3502fe6db8b173c90625c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 03/47] fix: clean up the VT of the client that could not be
 opened

seat->cur_vt is not necessarily the VT that was opened for the client.
---
 seatd/seat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 5e09384..a96c364 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -561,7 +561,7 @@ int seat_open_client(struct seat *seat, struct client *client) {
 
 error:
 	if (seat->vt_bound) {
-		vt_close(seat->cur_vt);
+		vt_close(client->session);
 	}
 	return -1;
 }
-- 
2.43.0


From 8ad5a5fc4e0cdcd2711879a9519a7849ca535cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 04/47] fix: fail instead of aborting when asked to open an
 invalid VT

The current VT is not known between VT release and acquire, and when its
lookup fails, so that terminal_open can be asked to open VT -1. Losing the
whole daemon and with it every session is not an acceptable response.
---
 common/terminal.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/common/terminal.c b/common/terminal.c
index 570cd7f..5d28513 100644
--- a/common/terminal.c
+++ b/common/terminal.c
@@ -1,4 +1,3 @@
-#include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
 #include <signal.h>
@@ -37,7 +36,10 @@
 
 #if defined(__FreeBSD__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 
 	const char prefix[] = "/dev/ttyv";
 	const size_t prefix_len = sizeof(prefix) - 1;
@@ -133,7 +135,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 }
 #elif defined(__linux__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	if (snprintf(path, TTYPATHLEN, "/dev/tty%d", tty) == -1) {
 		return -1;
 	}
@@ -141,7 +146,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 }
 #elif defined(__NetBSD__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	if (snprintf(path, TTYPATHLEN, "/dev/ttyE%d", tty) == -1) {
 		return -1;
 	}
-- 
2.43.0


From 6627ad055a5b2b35fd1aad4d01a46ee1f4d74fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 05/47] fix: do not lose signals raised while their handler
 runs

The raised flag was cleared after calling the handler, which dropped a signal
arriving in between.
---
 seatd/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..b17ecbb 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,9 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
+			// Cleared first to not lose a signal raised meanwhile.
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From d59277a84660a2702194ff3e1c67b553a3cc62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 06/47] fix: deliver seat events to clients that are slow to
 read

Events were flushed without asking the poller for writability on EAGAIN, which
was also treated as a failure to send even though the event remained queued,
and an event that could not be queued at all was dropped while the client
remained connected. Wait for writability like replies do, and disconnect the
client if the event cannot be queued.
---
 seatd/client.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..94a2b8e 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -458,17 +458,24 @@ static int client_handle_opcode(struct client *client, uint16_t opcode, size_t s
 	return res;
 }
 
+static int client_send_event(struct client *client, const struct proto_header *header) {
+	if (connection_put(&client->connection, header, sizeof *header) == -1 ||
+	    client_flush(client) == -1) {
+		log_errorf("Could not send event: %s", strerror(errno));
+		// The client can no longer follow the state of its seat. Hang
+		// up, so that the client is destroyed on the next poll.
+		shutdown(client->connection.fd, SHUT_RDWR);
+		return -1;
+	}
+	return 0;
+}
+
 int client_send_disable_seat(struct client *client) {
 	struct proto_header header = {
 		.opcode = SERVER_DISABLE_SEAT,
 		.size = 0,
 	};
-	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
-		log_errorf("Could not send event: %s", strerror(errno));
-		return -1;
-	}
-	return 0;
+	return client_send_event(client, &header);
 }
 
 int client_send_enable_seat(struct client *client) {
@@ -476,12 +483,7 @@ int client_send_enable_seat(struct client *client) {
 		.opcode = SERVER_ENABLE_SEAT,
 		.size = 0,
 	};
-	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
-		log_errorf("Could not send event: %s", strerror(errno));
-		return -1;
-	}
-	return 0;
+	return client_send_event(client, &header);
 }
 
 int client_handle_connection(int fd, uint32_t mask, void *data) {
-- 
2.43.0


From 5cc245b3c8882612bc7fe2ebbdc43803bb75318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 07/47] fix: refuse a second client on a VT also without an
 active client

The check for an existing client on the VT was skipped if no client was
active, allowing two clients with the same session.
---
 seatd/seat.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index a96c364..06d7cbe 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -216,15 +216,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *client = (struct client *)elem;
+			if (client->session == seat->cur_vt) {
+				log_error("Could not add client: seat is VT-bound and already has a client on this VT");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		client->session = seat->cur_vt;
-- 
2.43.0


From a3ac3932fc222519faeedd37e52e639c36ebc851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 08/47] fix: allow switching to the first session of a seat
 without VTs

Sessions were numbered from 0, which seat_set_next_session and libseat reject
as an invalid session.
---
 seatd/seat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 06d7cbe..089fff7 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -227,7 +227,9 @@ int seat_add_client(struct seat *seat, struct client *client) {
 		}
 		client->session = seat->cur_vt;
 	} else {
-		client->session = seat->session_cnt++;
+		// Sessions are numbered from 1, as 0 is not a valid session to
+		// switch to.
+		client->session = ++seat->session_cnt;
 	}
 
 	client->seat = seat;
-- 
2.43.0


From 6dfff691332b47bf563e6ae76a22acdeab2158dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 09/47] fix: check the accepted fd and not the listening one

---
 seatd/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/server.c b/seatd/server.c
index 47d6e91..539724d 100644
--- a/seatd/server.c
+++ b/seatd/server.c
@@ -158,7 +158,7 @@ int server_handle_connection(int fd, uint32_t mask, void *data) {
 
 	if (mask & EVENT_READABLE) {
 		int new_fd = accept(fd, NULL, NULL);
-		if (fd == -1) {
+		if (new_fd == -1) {
 			log_errorf("Could not accept client connection: %s", strerror(errno));
 			return 0;
 		}
-- 
2.43.0


From c0028d6c4730b4ca594e78dedae9a07e1619df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 10/47] fix: remove the socket if it could not be set up

A socket left behind keeps a seatd started by seatd-launch from starting.
---
 seatd/seatd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index f88e6c9..256aed7 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -37,20 +37,22 @@ static int open_socket(const char *path, int uid, int gid) {
 	}
 	if (listen(fd, LISTEN_BACKLOG) == -1) {
 		log_errorf("Could not listen on socket: %s", strerror(errno));
-		goto error;
+		goto error_bound;
 	}
 	if (uid != -1 || gid != -1) {
 		if (chmod(path, 0770) == -1) {
 			log_errorf("Could not chmod socket: %s", strerror(errno));
-			goto error;
+			goto error_bound;
 		}
 		if (chown(path, uid, gid) == -1) {
 			log_errorf("Could not chown socket to uid %d, gid %d: %s", uid, gid,
 				   strerror(errno));
-			goto error;
+			goto error_bound;
 		}
 	}
 	return fd;
+error_bound:
+	unlink(path);
 error:
 	close(fd);
 	return -1;
-- 
2.43.0


From 1c3d58ef67764e6050a58b66fbae36192168a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 11/47] fix: do not kill the pid of a seatd that was already
 reaped

---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..cd0d441 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -77,7 +77,7 @@ int main(int argc, char *argv[]) {
 		pid_t p = waitpid(seatd_child, NULL, WNOHANG);
 		if (p == seatd_child) {
 			fprintf(stderr, "seatd exited prematurely\n");
-			goto error_seatd;
+			goto error;
 		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
-- 
2.43.0


From e64678195f1c6bed7ef4600ed30bb487fcbd2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 12/47] fix: report end-of-file also with data left in the read
 buffer

connection_read returns the amount of buffered data, which hid the end-of-file
of a peer that went away in the middle of a message. As the socket remains
readable, this made the poll loops of both seatd and libseat spin.
---
 common/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..dcb89fd 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,9 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From 42da0b558ea7fa30a99dea169c1e2768d7f3b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 13/47] fix: execute queued events in the order they were
 received

linked_list_insert inserts at the head of the list, so that events were
executed in reverse when several were queued.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..88cef9b 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From 5ea17bb89326dc3b20a5b48fa8e35800c2986b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 14/47] fix: do not close the connection fd twice on failure to
 open the seat

The second close can hit an fd opened by another thread in the meantime.
---
 libseat/backend/seatd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 88cef9b..3865ec1 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -423,7 +423,9 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	return &backend->base;
 
 backend_error:
+	// This also closes the fd
 	destroy(backend);
+	return NULL;
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From d760c29faa64cc39c25df418d355145976992bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 15/47] fix: preserve the errno reported by seatd

check_pending_events replaced it, usually with EAGAIN.
---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 3865ec1..6a5d269 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -483,14 +483,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// The caller returns the errno of its request to the user
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -499,9 +501,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From 4e7be46ccceac1c2163128089b3427c79d4a2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 16/47] fix: notice that the connection was lost when
 dispatching without blocking

The read used when not blocking ignored end-of-file and did not put the
backend in its error state, so that users calling libseat_dispatch with a zero
timeout on a readable fd never learnt that seatd went away. Conversely, a
spurious wakeup while blocking for a response was reported as a failure.
---
 libseat/backend/seatd.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 6a5d269..68546fc 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -285,7 +285,9 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 			set_error(backend);
 			errno = EIO;
 			return -1;
-		} else if (len == -1 && errno != EAGAIN) {
+		} else if (len == -1 && errno == EAGAIN) {
+			return 0;
+		} else if (len == -1) {
 			set_error(backend);
 			return -1;
 		}
@@ -337,16 +339,10 @@ static int dispatch(struct libseat *base, int timeout) {
 	// We don't want to block if we dispatched something, as the
 	// caller might be waiting for the result. However, we'd also
 	// like to read anything pending.
-	int read = 0;
-	if (predispatch > 0 || timeout == 0) {
-		read = connection_read(&backend->connection);
-	} else {
-		read = poll_connection(backend, timeout);
-	}
-
+	int read = poll_connection(backend, predispatch > 0 ? 0 : timeout);
 	if (read == 0) {
 		return predispatch;
-	} else if (read == -1 && errno != EAGAIN) {
+	} else if (read == -1) {
 		log_errorf("Could not read from connection: %s", strerror(errno));
 		goto error;
 	}
-- 
2.43.0


From e36b225d02a617fe08da8b49b985ef9ea85da393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 17/47] fix: reject device paths that seatd cannot receive

Paths of 250 to 255 characters made a message that exceeds the read buffer of
seatd, which disconnects the client, losing its seat and all of its devices.
---
 libseat/backend/seatd.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 68546fc..00a12e0 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -511,16 +511,21 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 		errno = ENOTCONN;
 		return -1;
 	}
+	struct proto_client_open_device msg;
+	struct proto_header header;
+
+	// The whole message has to fit in the receive buffer of seatd
 	size_t pathlen = strlen(path) + 1;
-	if (pathlen > MAX_PATH_LEN) {
+	if (pathlen > MAX_PATH_LEN ||
+	    sizeof header + sizeof msg + pathlen > CONNECTION_BUFFER_SIZE) {
 		errno = EINVAL;
 		return -1;
 	}
 
-	struct proto_client_open_device msg = {
+	msg = (struct proto_client_open_device){
 		.path_len = (uint16_t)pathlen,
 	};
-	struct proto_header header = {
+	header = (struct proto_header){
 		.opcode = CLIENT_OPEN_DEVICE,
 		.size = sizeof msg + pathlen,
 	};
-- 
2.43.0


From 383fccbd89250ea39f16db16ee01aa970a84128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 18/47] fix: activate the client of the current VT after
 unsignalled VT switches

Switches to or from VTs that are not in process mode are not signalled, so
that the recorded VT could be stale when the next client was chosen, which
enabled a client in the background.
---
 seatd/seat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 089fff7..d995805 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -149,6 +149,12 @@ static int seat_activate(struct seat *seat) {
 		return 0;
 	}
 
+	if (seat->vt_bound) {
+		// We are not signalled of switches to or from VTs that were
+		// not opened for a client, so cur_vt might be outdated.
+		seat_update_vt(seat);
+	}
+
 	struct client *next_client = NULL;
 	if (seat->next_client != NULL) {
 		log_debugf("Activating next queued client on %s", seat->seat_name);
-- 
2.43.0


From 17221a3ceb6a260c96823616441b6eab1af5a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 19/47] fix: do not enable a client whose VT was switched away
 from meanwhile

A VT not yet in process mode can be switched away from at any time, without
notice, after it was determined to be the VT of the new client.
---
 seatd/seat.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index d995805..c4d1614 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -542,9 +542,21 @@ int seat_open_client(struct seat *seat, struct client *client) {
 		return -1;
 	}
 
-	if (seat->vt_bound && vt_open(client->session) == -1) {
-		log_error("Could not open VT for client");
-		goto error;
+	if (seat->vt_bound) {
+		if (vt_open(client->session) == -1) {
+			log_error("Could not open VT for client");
+			goto error;
+		}
+
+		// The VT may have been switched before the above put it in
+		// process mode. Leave it to the acquire signal to enable the
+		// client in that case.
+		seat_update_vt(seat);
+		if (seat->cur_vt != client->session) {
+			log_info("Could not enable client: VT is no longer current");
+			errno = EAGAIN;
+			goto error;
+		}
 	}
 
 	for (struct linked_list *elem = client->devices.next; elem != &client->devices;
-- 
2.43.0


From 5121d5a41aed5e46428cb128dd8b116004485080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 20/47] fix: enable a waiting client when its VT is switched
 back to

A client that opens the seat while the previous client has yet to acknowledge
its disable is enabled later. If the VT was switched away from and back in the
meantime, there was no signal to enable the client, as its VT was not in
process mode.
---
 seatd/seat.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index c4d1614..fd543f2 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -101,6 +101,21 @@ static int vt_close(int vt) {
 	return 0;
 }
 
+/*
+ * vt_watch requests to be signalled of switches to and from a VT, without
+ * otherwise changing it.
+ */
+static int vt_watch(int vt) {
+	int ttyfd = terminal_open(vt);
+	if (ttyfd == -1) {
+		log_errorf("Could not open terminal to watch VT %d: %s", vt, strerror(errno));
+		return -1;
+	}
+	terminal_set_process_switching(ttyfd, true);
+	close(ttyfd);
+	return 0;
+}
+
 static int vt_switch(struct seat *seat, int vt) {
 	int ttyfd = terminal_open(seat->cur_vt);
 	if (ttyfd == -1) {
@@ -538,6 +553,9 @@ int seat_open_client(struct seat *seat, struct client *client) {
 
 	if (seat->active_client != NULL) {
 		log_error("Could not enable client: seat already has an active client");
+		if (seat->vt_bound) {
+			vt_watch(client->session);
+		}
 		errno = EBUSY;
 		return -1;
 	}
-- 
2.43.0


From 6e03d84fb05777ce916673b73120d2d8e7dd6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 21/47] fix: do not leak the device fd if it cannot be queued

---
 seatd/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seatd/client.c b/seatd/client.c
index 94a2b8e..566b106 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -232,13 +232,16 @@ static int handle_open_device(struct client *client, char *path) {
 
 	int dupfd = dup(device->fd);
 	if (dupfd == -1) {
-		log_errorf("Could not dup fd: %s", strerror(errno));
+		int error = errno;
+		log_errorf("Could not dup fd: %s", strerror(error));
 		seat_close_device(client, device);
+		errno = error;
 		goto fail;
 	}
 
 	if (connection_put_fd(&client->connection, dupfd) == -1) {
 		log_errorf("Could not queue fd for sending: %s", strerror(errno));
+		close(dupfd);
 		return -1;
 	}
 
-- 
2.43.0


From a3670ca7629fb59ca94224009ea60a487fca2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 22/47] fix: do not close the client fd of the embedded seatd
 twice

---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 00a12e0..3b06ded 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -669,6 +669,7 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 		struct server server = {0};
 		if (server_init(&server) == -1) {
 			log_errorf("Could not init embedded seatd server: %s", strerror(errno));
+			close(fd);
 			res = 1;
 			goto error;
 		}
@@ -689,7 +690,6 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 	server_error:
 		server_finish(&server);
 	error:
-		close(fd);
 		log_info("Stopped embedded seatd");
 		exit(res);
 	} else {
-- 
2.43.0


From 4f752434e17a688ab3fbb2f7913ea7678efa851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 23/47] fix: grow the poll array when adding an fd

Failing to grow it when polling terminated seatd, and with it all sessions,
because of a new connection.
---
 seatd/poller.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/seatd/poller.c b/seatd/poller.c
index b17ecbb..8a70de1 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -121,6 +121,18 @@ struct event_source_fd *poller_add_fd(struct poller *poller, int fd, uint32_t ma
 	if (bpfd == NULL) {
 		return NULL;
 	}
+	if (poller->fd_event_sources + 1 > poller->pollfds_len) {
+		// Done here rather than when polling, as failure to poll is
+		// fatal to all event sources rather than just this one.
+		size_t len = poller->fd_event_sources + 1;
+		struct pollfd *fds = realloc(poller->pollfds, len * sizeof(struct pollfd));
+		if (fds == NULL) {
+			free(bpfd);
+			return NULL;
+		}
+		poller->pollfds = fds;
+		poller->pollfds_len = len;
+	}
 	bpfd->fd = fd;
 	bpfd->mask = mask;
 	bpfd->data = data;
-- 
2.43.0


From 32e34717b84a8b92382383ababbde35dce79dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 24/47] fix: read D-Bus booleans into an int

sd-bus stores booleans as int, which wrote past the bool variables used.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..8f3222b 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -280,11 +280,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0;
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value != 0;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value;
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value;
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 2a0b4a859ef9acbc6e73dc4122fadac4ba5d7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 25/47] fix: do not leak the reply to PauseDeviceComplete

The reply also replaced the signal message owned by the caller. As the reply
is of no interest, do not request it.
---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 8f3222b..f2715c2 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -391,7 +391,7 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		set_active(session, false);
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, NULL, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
-- 
2.43.0


From 48f5b86f6b564bb25b024b6e50172ee2d0e12d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 26/47] fix: set errno when a logind request fails

libseat reports failure through errno, which was left at whatever value it had.
---
 libseat/backend/logind.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index f2715c2..c32b953 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -103,6 +103,18 @@ static void check_pending_events(struct backend_logind *backend) {
 	}
 }
 
+/*
+ * cleanup_call releases the results of a call made on behalf of the user,
+ * preserving the errno to be reported to the user.
+ */
+static void cleanup_call(struct backend_logind *session, sd_bus_error *error, sd_bus_message *msg) {
+	int saved_errno = errno;
+	sd_bus_error_free(error);
+	sd_bus_message_unref(msg);
+	check_pending_events(session);
+	errno = saved_errno;
+}
+
 static int open_device(struct libseat *base, const char *path, int *fd) {
 	struct backend_logind *session = backend_logind_from_libseat_backend(base);
 
@@ -122,6 +134,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 				 major(st.st_rdev), minor(st.st_rdev));
 	if (ret < 0) {
 		log_errorf("Could not take device: %s", error.message);
+		errno = -ret;
 		tmpfd = -1;
 		goto out;
 	}
@@ -130,6 +143,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	ret = sd_bus_message_read(msg, "hb", &tmpfd, &paused);
 	if (ret < 0) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
+		errno = -ret;
 		tmpfd = -1;
 		goto out;
 	}
@@ -146,9 +160,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	*fd = tmpfd;
 
 out:
-	sd_bus_error_free(&error);
-	sd_bus_message_unref(msg);
-	check_pending_events(session);
+	cleanup_call(session, &error, msg);
 	return tmpfd;
 }
 
@@ -174,11 +186,10 @@ static int close_device(struct libseat *base, int device_id) {
 				     &msg, "uu", major(st.st_rdev), minor(st.st_rdev));
 	if (ret < 0) {
 		log_errorf("Could not close device: %s", error.message);
+		errno = -ret;
 	}
 
-	sd_bus_error_free(&error);
-	sd_bus_message_unref(msg);
-	check_pending_events(session);
+	cleanup_call(session, &error, msg);
 	return ret < 0 ? -1 : 0;
 }
 
@@ -197,11 +208,10 @@ static int switch_session(struct libseat *base, int s) {
 				     (uint32_t)s);
 	if (ret < 0) {
 		log_errorf("Could not switch session: %s", error.message);
+		errno = -ret;
 	}
 
-	sd_bus_error_free(&error);
-	sd_bus_message_unref(msg);
-	check_pending_events(session);
+	cleanup_call(session, &error, msg);
 	return ret < 0 ? -1 : 0;
 }
 
-- 
2.43.0


From b2ace2ba00d199b1ba6b83178df7c4fbf67f65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 27/47] fix: handle allocation failure when opening a logind
 seat

Instead of aborting the application or proceeding with NULL paths.
---
 libseat/backend/logind.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index c32b953..d10fd1f 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -567,6 +567,9 @@ static int manager_get_session_path(struct backend_logind *session, char **sessi
 	}
 	free(*session_path);
 	*session_path = strdup(path);
+	if (*session_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -596,6 +599,9 @@ static int manager_get_seat_path(struct backend_logind *session, char **seat_pat
 	}
 	free(*seat_path);
 	*seat_path = strdup(path);
+	if (*seat_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -617,6 +623,10 @@ static int get_display_session(char **session_id) {
 			goto error;
 		}
 		*session_id = strdup(xdg_session_id);
+		if (*session_id == NULL) {
+			ret = -ENOMEM;
+			goto error;
+		}
 		goto success;
 	}
 
-- 
2.43.0


From aff51cef4521c8e8a2895cad6aee098363411517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 28/47] fix: report the loss of the bus when dispatching

Failures of sd_bus_process were ignored, so that users dispatching with a zero
timeout on a readable fd never learnt that the bus went away.
---
 libseat/backend/logind.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index d10fd1f..1127645 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -270,7 +270,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (dispatched == 0 && total_dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -279,6 +279,11 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			total_dispatched += dispatched;
 		}
 	}
+	if (dispatched < 0) {
+		log_errorf("Could not process messages: %s", strerror(-dispatched));
+		errno = -dispatched;
+		return -1;
+	}
 	check_pending_events(backend);
 	return total_dispatched;
 }
-- 
2.43.0


From 1ed4bcac7ce8cee8ffc6e8c5c166934719de86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 29/47] fix: wake up users for events received together with
 the opened seat

seatd sends the first enable event right after its reply to open_seat. When
both are read at once, users that dispatch when the fd becomes readable never
saw the event.
---
 libseat/backend/seatd.c | 77 +++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 3b06ded..ad5609b 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -360,6 +360,44 @@ error:
 	return -1;
 }
 
+static int send_ping(struct backend_seatd *backend) {
+	struct proto_header header = {
+		.opcode = CLIENT_PING,
+		.size = 0,
+	};
+	if (conn_put(backend, &header, sizeof header) == -1 || conn_flush(backend) == -1) {
+		return -1;
+	}
+	return 0;
+}
+
+static void check_pending_events(struct backend_seatd *backend) {
+	// The caller returns the errno of its request to the user
+	int saved_errno = errno;
+	if (read_and_queue(backend, NULL) == -1) {
+		goto done;
+	}
+	if (linked_list_empty(&backend->pending_events)) {
+		goto done;
+	}
+	if (backend->awaiting_pong) {
+		goto done;
+	}
+
+	// We have events pending execution, so a dispatch is required.
+	// However, we likely already drained our socket, so there will not be
+	// anything to read. Instead, send a ping request to seatd, so that the
+	// user will be woken up by its response.
+	if (send_ping(backend) == -1) {
+		log_errorf("Could not send ping request: %s", strerror(errno));
+		goto done;
+	}
+	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
+}
+
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
@@ -416,6 +454,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
@@ -467,44 +506,6 @@ static const char *seat_name(struct libseat *base) {
 	return backend->seat_name;
 }
 
-static int send_ping(struct backend_seatd *backend) {
-	struct proto_header header = {
-		.opcode = CLIENT_PING,
-		.size = 0,
-	};
-	if (conn_put(backend, &header, sizeof header) == -1 || conn_flush(backend) == -1) {
-		return -1;
-	}
-	return 0;
-}
-
-static void check_pending_events(struct backend_seatd *backend) {
-	// The caller returns the errno of its request to the user
-	int saved_errno = errno;
-	if (read_and_queue(backend, NULL) == -1) {
-		goto done;
-	}
-	if (linked_list_empty(&backend->pending_events)) {
-		goto done;
-	}
-	if (backend->awaiting_pong) {
-		goto done;
-	}
-
-	// We have events pending execution, so a dispatch is required.
-	// However, we likely already drained our socket, so there will not be
-	// anything to read. Instead, send a ping request to seatd, so that the
-	// user will be woken up by its response.
-	if (send_ping(backend) == -1) {
-		log_errorf("Could not send ping request: %s", strerror(errno));
-		goto done;
-	}
-	backend->awaiting_pong = true;
-
-done:
-	errno = saved_errno;
-}
-
 static int open_device(struct libseat *base, const char *path, int *fd) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
-- 
2.43.0


From 62cfd19058dfeed897243a0399df67492ae2efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 30/47] fix: fail on messages with opcode 0 instead of waiting
 for ever

---
 libseat/backend/seatd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index ad5609b..d3c2d04 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -242,11 +242,12 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 			}
 			break;
 		default:
+			// 0 is not a valid opcode.
 			// If we do not have an opcode pointer, the caller only
 			// expected to see background events so this would be
 			// an error and we might as well stop now. Otherwise,
 			// store the opcode once we have the full message.
-			if (opcode == NULL) {
+			if (opcode == NULL || header.opcode == 0) {
 				log_errorf("Unexpected response: expected background event, got opcode %d",
 					   header.opcode);
 				set_error(backend);
-- 
2.43.0


From 6d4ec2155c6ae269cc7e562c84580265b0637c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 31/47] fix: do not queue events after the connection failed

---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index d3c2d04..a71b26a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -375,6 +375,10 @@ static int send_ping(struct backend_seatd *backend) {
 static void check_pending_events(struct backend_seatd *backend) {
 	// The caller returns the errno of its request to the user
 	int saved_errno = errno;
+	if (backend->error) {
+		// What is left in the buffers belongs to a failed connection
+		goto done;
+	}
 	if (read_and_queue(backend, NULL) == -1) {
 		goto done;
 	}
-- 
2.43.0


From 21d95081797f5a7b4573e239153d1dee01c634a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 32/47] fix: do not connect to a truncated socket path

---
 libseat/backend/seatd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index a71b26a..16b4626 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -56,6 +56,12 @@ static int seatd_connect(void) {
 	if (path == NULL) {
 		path = SEATD_DEFAULTPATH;
 	}
+	if (strlen(path) >= sizeof addr.unix.sun_path) {
+		log_errorf("Socket path %s is too long", path);
+		close(fd);
+		errno = ENAMETOOLONG;
+		return -1;
+	}
 	addr.unix.sun_family = AF_UNIX;
 	strncpy(addr.unix.sun_path, path, sizeof addr.unix.sun_path - 1);
 	socklen_t size = offsetof(struct sockaddr_un, sun_path) + strlen(addr.unix.sun_path);
-- 
2.43.0


From 467a9db2035bcb2189ea493620745fed2e6da756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 33/47] fix: do not die of SIGPIPE when the reader of the
 readiness fd is gone

The default action of SIGPIPE killed seatd after it had created its
socket, leaving the socket behind.
---
 seatd/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index 256aed7..55f02d0 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -2,6 +2,7 @@
 #include <grp.h>
 #include <poll.h>
 #include <pwd.h>
+#include <signal.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -154,6 +155,9 @@ int main(int argc, char *argv[]) {
 	log_init();
 	libseat_set_log_level(level);
 
+	// The reader of the readiness fd might already be gone
+	signal(SIGPIPE, SIG_IGN);
+
 	struct stat st;
 	if (lstat(SEATD_DEFAULTPATH, &st) == 0) {
 		if (!S_ISSOCK(st.st_mode)) {
-- 
2.43.0


From 34720fa6170da296e23d14266a3c817af56a22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 34/47] fix: leave the options of the command to the command

Without a leading '+', the getopt of glibc permutes its arguments and
seatd-launch took the options of the command for its own.
---
 seatd-launch/seatd-launch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index cd0d441..dfb116c 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -20,7 +20,8 @@ int main(int argc, char *argv[]) {
 
 	int c;
 	char loglevel[16] = "info";
-	while ((c = getopt(argc, argv, "vhl:")) != -1) {
+	// The options after the command are those of the command
+	while ((c = getopt(argc, argv, "+vhl:")) != -1) {
 		switch (c) {
 		case 'l':
 			strncpy(loglevel, optarg, sizeof loglevel);
-- 
2.43.0


From 3b6d238bd1c86c0e8ead88ea3df433dcf954d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 35/47] fix: reset SIGCHLD so that children can be waited for

When started with SIGCHLD ignored, seatd-launch could not learn the
status of its children: it spun for ever if seatd failed to start, did
not exit with the status of the command, and signalled a process id
that might have been reused.
---
 seatd-launch/seatd-launch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index dfb116c..a550fbf 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -47,6 +47,9 @@ int main(int argc, char *argv[]) {
 	}
 	char **command = &argv[optind];
 
+	// If SIGCHLD is ignored we never learn how our children end
+	signal(SIGCHLD, SIG_DFL);
+
 	int readiness_pipe[2];
 	if (pipe(readiness_pipe) == -1) {
 		perror("Could not create pipe");
-- 
2.43.0


From 78241f800d3a4af4b692ca7d5e2545136058695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 36/47] fix: do not start the command without SEATD_SOCK

---
 seatd-launch/seatd-launch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index a550fbf..8d121fd 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -142,7 +142,10 @@ int main(int argc, char *argv[]) {
 		perror("Could not fork target process");
 		goto error_seatd;
 	} else if (child == 0) {
-		setenv("SEATD_SOCK", SEATD_DEFAULTPATH, 1);
+		if (setenv("SEATD_SOCK", SEATD_DEFAULTPATH, 1) == -1) {
+			perror("Could not set SEATD_SOCK");
+			_exit(1);
+		}
 		execvp(command[0], command);
 		perror("Could not start target");
 		_exit(1);
-- 
2.43.0


From 0d19e1dddee90a60bbe6e713e0e5d1adf815ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 37/47] fix: libseat/noop: set errno when a session switch is
 refused

libseat.h promises errno for every failing call, but the noop backend left
it as it was, so callers reported an unrelated error or "Success".
---
 libseat/backend/noop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..7d07281 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
-- 
2.43.0


From 9fd742f328127c60a664f7ada712a303c6fb37a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 38/47] fix: libseat/seatd: set errno when the connection fd is
 gone

After an error closes the connection, libseat_get_fd returns -1. As
libseat.h promises, tell why.
---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 16b4626..b649af6 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -326,6 +326,10 @@ static int read_until_response(struct backend_seatd *backend) {
 
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
+	if (backend->connection.fd == -1) {
+		// The connection was closed due to an earlier error
+		errno = ENOTCONN;
+	}
 	return backend->connection.fd;
 }
 
-- 
2.43.0


From 58b5fa960858b7ff4ea4aecdba12d6d4529c8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 39/47] fix: libseat/seatd: report why closing a seat failed

---
 libseat/backend/seatd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index b649af6..e85324c 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -494,6 +494,7 @@ static int close_seat(struct libseat *base) {
 	int res = 0;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
+		errno = ENOTCONN;
 		res = -1;
 		goto done;
 	}
@@ -504,15 +505,21 @@ static int close_seat(struct libseat *base) {
 	};
 	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1) {
 		res = -1;
+		goto done;
 	}
 
 	if (read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
 		res = -1;
 	}
 
-done:
+done:;
+	// The listener and the cleanup must not change what is reported
+	int saved_errno = errno;
 	execute_events(backend);
 	destroy(backend);
+	if (res == -1) {
+		errno = saved_errno;
+	}
 	return res;
 }
 
-- 
2.43.0


From 8825c94d08e356c2b54b7f6f3d6e197e010cc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 40/47] fix: do not run the application's exit handlers in the
 embedded seatd

---
 libseat/backend/seatd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index e85324c..039872b 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -714,7 +714,8 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 		server_finish(&server);
 	error:
 		log_info("Stopped embedded seatd");
-		exit(res);
+		// The exit handlers and buffered output are those of the application
+		_exit(res);
 	} else {
 		close(fds[0]);
 		int fd = fds[1];
-- 
2.43.0


From e8a0a3560c515864678f7c99d8aaaed28b68fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 41/47] fix: unblock the signals seatd handles

---
 seatd/poller.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seatd/poller.c b/seatd/poller.c
index 8a70de1..67803c6 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -183,6 +183,12 @@ struct event_source_signal *poller_add_signal(struct poller *poller, int signal,
 
 	linked_list_insert(&poller->signals, &bps->link);
 
+	// The process that started us might have had the signal blocked
+	sigset_t set;
+	sigemptyset(&set);
+	sigaddset(&set, signal);
+	sigprocmask(SIG_UNBLOCK, &set, NULL);
+
 	return (struct event_source_signal *)bps;
 }
 
-- 
2.43.0


From 5f3ff94fe367102145adab27b88ef02fc8a4beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 42/47] fix: listen only once the socket has its owner and mode

---
 seatd/seatd.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index 55f02d0..6dcd8c2 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -36,10 +36,6 @@ static int open_socket(const char *path, int uid, int gid) {
 		log_errorf("Could not bind socket: %s", strerror(errno));
 		goto error;
 	}
-	if (listen(fd, LISTEN_BACKLOG) == -1) {
-		log_errorf("Could not listen on socket: %s", strerror(errno));
-		goto error_bound;
-	}
 	if (uid != -1 || gid != -1) {
 		if (chmod(path, 0770) == -1) {
 			log_errorf("Could not chmod socket: %s", strerror(errno));
@@ -51,6 +47,11 @@ static int open_socket(const char *path, int uid, int gid) {
 			goto error_bound;
 		}
 	}
+	// Nobody can connect before the socket belongs to those who may
+	if (listen(fd, LISTEN_BACKLOG) == -1) {
+		log_errorf("Could not listen on socket: %s", strerror(errno));
+		goto error_bound;
+	}
 	return fd;
 error_bound:
 	unlink(path);
-- 
2.43.0


From fe7030ac1dac113b88bc51fd72bea612eac81736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 43/47] fix: libseat/logind: do not block after delivering the
 initial event

---
 libseat/backend/logind.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 1127645..73c74a3 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -254,7 +254,10 @@ static int poll_connection(struct backend_logind *backend, int timeout) {
 
 static int dispatch_and_execute(struct libseat *base, int timeout) {
 	struct backend_logind *backend = backend_logind_from_libseat_backend(base);
+	int total_dispatched = 0;
 	if (backend->initial_setup) {
+		// The caller might be waiting for this, so it must not block
+		total_dispatched++;
 		backend->initial_setup = false;
 		if (backend->active) {
 			backend->seat_listener->enable_seat(&backend->base,
@@ -265,7 +268,6 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		}
 	}
 
-	int total_dispatched = 0;
 	int dispatched = 0;
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
-- 
2.43.0


From 33836496182bb4e3441a09144c794495f78957f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 44/47] fix: libseat/logind: release the device if its
 descriptor cannot be handed out

---
 libseat/backend/logind.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 73c74a3..49d5a51 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -145,7 +145,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
 		errno = -ret;
 		tmpfd = -1;
-		goto out;
+		goto release;
 	}
 
 	// The original fd seems to be closed when the message is freed
@@ -154,11 +154,22 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	if (tmpfd < 0) {
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
-		goto out;
+		goto release;
 	}
 
 	*fd = tmpfd;
+	goto out;
 
+release:;
+	// The user has no way to close a device that was not handed out
+	int saved_errno = errno;
+	ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
+				 "org.freedesktop.login1.Session", "ReleaseDevice", NULL, NULL,
+				 "uu", major(st.st_rdev), minor(st.st_rdev));
+	if (ret < 0) {
+		log_errorf("Could not release device: %s", strerror(-ret));
+	}
+	errno = saved_errno;
 out:
 	cleanup_call(session, &error, msg);
 	return tmpfd;
-- 
2.43.0


From 65dc16b5b3b579afe42ea9da7dc2d8ca213c4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 45/47] fix: libseat/noop: do not block after delivering the
 enable event

---
 libseat/backend/noop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 7d07281..d45a580 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -87,6 +87,8 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		// The caller might be waiting for this, so it must not block
+		return 1;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From bca7c13636a94c11e703a1f0d418383af028ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 46/47] fix: libseat/seatd: give up the connection if a
 response cannot be awaited

The request was sent, so its response would be taken for that of the next request.
---
 libseat/backend/seatd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 039872b..f889d67 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -317,7 +317,11 @@ static int read_until_response(struct backend_seatd *backend) {
 			break;
 		}
 		if (poll_connection(backend, -1) == -1) {
-			log_errorf("Could not poll connection: %s", strerror(errno));
+			// The response must not be taken for that of a later request
+			int saved_errno = errno;
+			log_errorf("Could not poll connection: %s", strerror(saved_errno));
+			set_error(backend);
+			errno = saved_errno;
 			return -1;
 		}
 	}
-- 
2.43.0


From 96117d04f40ca48f585c265e9385e5c2fce9eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 47/47] fix: seat: do not ack an acquired VT while its client
 is active

Any VT_RELDISP with a non-zero argument completes a pending release, so
acking an acquire late lets the kernel switch away before the active
client was disabled and its devices were revoked.
---
 seatd/seat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index fd543f2..e6d1b7b 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -744,7 +744,11 @@ int seat_vt_activate(struct seat *seat) {
 	}
 	seat_update_vt(seat);
 	log_debug("Activating VT");
-	vt_ack(seat, false);
+	// If a release of the VT was requested in the meantime, any ack grants
+	// it. The active client must be disabled before that.
+	if (seat->active_client == NULL || seat->active_client->state != CLIENT_ACTIVE) {
+		vt_ack(seat, false);
+	}
 	if (seat->active_client == NULL) {
 		seat_activate(seat);
 	}
-- 
2.43.0

