From 5d6b61ad56169a427829437a72e77bd0052a3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 01/50] fix: buffer: correct configurations that cannot work

With History enabled, DynamicBacklog = 0 made the producer abort on an
assertion as soon as the static backlog was exhausted, and GCLevel = 0 made
the garbage collector divide by zero. Raise both to 1 like StaticBacklog.
---
 src/core/buffer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..2fd9718 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,17 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to "
+			"1");
+	}
+
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From 22caca3813044633d286091ef9bca2927cdb3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 02/50] fix: network: after a partial transfer send only the
 remaining bytes

The full length was passed again, which sent memory behind the buffer.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 2097558be9645cad7d49773504742255204e84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 03/50] fix: network: do not abort if sending fails while
 disconnected

A thread which does not wait for the connection (position updates) can try
to send when both directions already know that the connection is lost.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..dcaf660 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -308,8 +308,8 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
+		transState != TRANSIT_NONE &&
 		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From 69d6c2e04a37da1c16bdeaca45e3f5f41c5500fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 04/50] fix: network: close all sockets when stopped

A stale socket, which only one direction knew to be lost, was leaked and a
closed descriptor was kept for sending.
---
 src/core/network.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index dcaf660..3bfb0fd 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock;
+static sock_t recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock;
+static sock_t sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
@@ -165,21 +165,16 @@ static bool checkCfg(const struct CFG_Section * sect)
 
 static void cleanupMain()
 {
-	if (connState == CONN_STATE_CONNECTED) {
-		switch (transState) {
-		case TRANSIT_NONE:
-		case TRANSIT_SEND:
-			SOCK_shutdown(recvsock, SHUT_RDWR);
-			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
-			break;
-		case TRANSIT_RECV:
-			SOCK_shutdown(sendsock, SHUT_RDWR);
-			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
-			break;
-		}
+	/* in transition there can be two sockets or just the stale one */
+	if (recvsock != SOCK_INVALID) {
+		SOCK_shutdown(recvsock, SHUT_RDWR);
+		SOCK_close(recvsock);
+	}
+	if (sendsock != SOCK_INVALID && sendsock != recvsock) {
+		SOCK_shutdown(sendsock, SHUT_RDWR);
+		SOCK_close(sendsock);
 	}
+	recvsock = sendsock = SOCK_INVALID;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From b0f319f2aff4c27bcb2cb59820bec2c93b20da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 05/50] fix: network: report the loss of a connection to the
 receiver

If the sender had reconnected meanwhile, receiving continued silently on the
new connection, so an incomplete packet was completed with other data.
---
 src/core/network.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 3bfb0fd..ee82b2a 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -403,17 +403,18 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* even if already reconnected: the caller must not mix up data of
+	 * different connections */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From c655b0e5109598f76d01db229a13c31acb25d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 06/50] fix: net_common: close the socket if cancelled while
 connecting

---
 src/util/net_common-posix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..11591b5 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket which is not connected yet */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -31,6 +33,8 @@ struct Hosts {
 static void cleanup(struct Hosts * hosts)
 {
 	if (hosts) {
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
 		free(hosts->shuffled);
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -130,7 +135,9 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
 
 		/* connect socket */
+		hosts->sock = sock;
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
+		hosts->sock = SOCK_INVALID;
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
 			SOCK_close(sock);
-- 
2.43.0


From 45ed61c65bfff497aa4265f717ddd3ed11184afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 07/50] fix: component: do not join a thread twice upon a
 deferred stop

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From fa8e56e07c14b1986d47e88357edf7e495141128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 08/50] fix: req-serial: save a serial number which arrives
 late

A response which arrived after the request had been given up was used, but
never saved, so another number was requested after a restart.
---
 src/dump1090/req-serial.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..417adfc 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -36,6 +36,8 @@ static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
 
 /** Configuration: serial number given */
 static bool hasSerial;
+/** Serial number was received, but not saved yet */
+static bool unsavedSerial;
 /** Configuration: serial number */
 static uint32_t serialNumber;
 
@@ -119,12 +121,14 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
-
+	}
+	if (unsavedSerial) {
 		/* got a new serial number -> save it */
 		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsavedSerial = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -151,6 +155,7 @@ static void serialResponse(const uint8_t * payload)
 	pthread_mutex_lock(&serialMutex);
 	serialNumber = ENDEC_tou32(payload);
 	hasSerial = true;
+	unsavedSerial = true;
 	pthread_cond_broadcast(&serialReqCond);
 	pthread_mutex_unlock(&serialMutex);
 }
-- 
2.43.0


From f378f3267b78d15dadb180587c19dc4cd1792a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 09/50] fix: relay, recv: keep the frame in memory for the
 cleanup routine

The cleanup routines get a pointer to the local variable holding the current
frame. With optimization the compiler keeps that variable in a register, hence
a frame being filled or sent was lost when the thread was cancelled and the
feed could not be started again (assertion in the buffer).
---
 src/core/recv.c  | 5 +++--
 src/core/relay.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 8ac86f6..241dfc3 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -25,7 +25,7 @@ const struct Component RECV_comp = {
  * @param frame pointer to current pointer to frame. Must be done this way,
  *  since the argument is always the initial value.
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_abortFrame(*frame);
@@ -40,7 +40,8 @@ static void cleanupInput()
 /** Main loop: get a frame from the pool, fill it and buffer it */
 static void mainloop()
 {
-	struct OPENSKY_RawFrame * frame = NULL;
+	/* volatile: must be up to date in memory for the cleanup routine */
+	struct OPENSKY_RawFrame * volatile frame = NULL;
 	struct OPENSKY_DecodedFrame decoded;
 
 	CLEANUP_PUSH(&cleanup, &frame);
diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..a5ae39e 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -45,7 +45,7 @@ const struct Component RELAY_comp = {
 /** Cleanup routine: put a frame back into the queue upon cancellation
  * @param frame pointer to frame
  */
-static void cleanup(struct OPENSKY_RawFrame ** frame)
+static void cleanup(const struct OPENSKY_RawFrame * volatile * frame)
 {
 	if (*frame)
 		BUF_putFrame(*frame);
@@ -88,7 +88,8 @@ static void mainloop()
 		BUF_flushUnlessHistoryEnabled();
 
 		bool success;
-		const struct OPENSKY_RawFrame * frame = NULL;
+		/* volatile: must be up to date in memory for the cleanup routine */
+		const struct OPENSKY_RawFrame * volatile frame = NULL;
 		CLEANUP_PUSH(&cleanup, &frame);
 		do {
 			/* read a frame from the buffer */
-- 
2.43.0


From 9eaaa9c06ea63eb049d2ed30de2dedc60360d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 10/50] fix: component: bound the list of components which
 could not be stopped

---
 src/util/component.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..08ad4cb 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -343,6 +343,9 @@ static void stopUntil(struct ComponentLink * end)
 				size_t len = MIN(strlen(ci->comp->description), bend - buf);
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
+				/* leave room for the separator or the terminator */
+				if (buf == bend)
+					break;
 				*(buf++) = ' ';
 			}
 		}
-- 
2.43.0


From a4a30e74683304c5999f680ed7be01b413a4f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 11/50] fix: tb-misc: terminate the child if upgrading failed

---
 src/radarcape/tb-misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..7f0eae2 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,9 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+
+	/* this is the forked child: never return to the daemon's code */
+	_Exit(EXIT_FAILURE);
 }
 #endif
 
-- 
2.43.0


From 8976e2130bf6d8fc4ad4c5af2fb7f134fd834c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 12/50] fix: proc: report failure if a command could not be
 forked

---
 src/util/proc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..7ccaf61 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -132,10 +132,15 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	}
 	if (!pid)
 		PROC_execAndFinalize(argv);
 
 	int status;
-	waitpid(pid, &status, 0);
+	if (waitpid(pid, &status, 0) != pid)
+		return false;
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 4d4d2877e4185a35096c59f86fa0bb156b0e1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 13/50] fix: proc: terminate the printed command line if it is
 too long

---
 src/util/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 7ccaf61..80e03ff 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -34,7 +34,7 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	if (!ptr || (*arg && ptr == end))
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From 910ba6a2ad400f656d56694a6b3b5a86783318a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 14/50] fix: gps: do not lose the withdrawal of a position
 request

---
 src/core/gps.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..9d16872 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -49,7 +49,9 @@ void GPS_reset()
 /** Reset flag whether position is needed */
 void GPS_resetNeedFlag()
 {
+	pthread_mutex_lock(&posMutex);
 	needPosition = false;
+	pthread_mutex_unlock(&posMutex);
 }
 
 /** Update current GPS position and fix */
-- 
2.43.0


From 98b469b924643681a50d84550624ccc021c01c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 15/50] fix: trimble: do not take an escaped BOM as the type of
 a packet

---
 src/trimble/trimble_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..2ce9203 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -109,9 +109,9 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == EOM || *buf == BOM)) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got escaped BOM or "
+				"unescaped EOM in frame, resynchronizing");
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 0b4a4d9ffaec6f5a9f8b214ce58c3767d5b7af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 16/50] fix: recv: disconnect the input if cancelled while
 connecting

---
 src/core/recv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 241dfc3..c41956b 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -45,11 +45,11 @@ static void mainloop()
 	struct OPENSKY_DecodedFrame decoded;
 
 	CLEANUP_PUSH(&cleanup, &frame);
+	/* also needed if cancelled while connecting or disconnecting */
+	CLEANUP_PUSH(&cleanupInput, NULL);
 	while (true) {
 		INPUT_connect();
 
-		CLEANUP_PUSH(&cleanupInput, NULL);
-
 		FILTER_reset(); /* upon reconnection of the input: reset filter state */
 
 		frame = BUF_newFrame();
@@ -76,7 +76,8 @@ static void mainloop()
 				break;
 			}
 		}
-		CLEANUP_POP();
+		INPUT_disconnect();
 	}
 	CLEANUP_POP();
+	CLEANUP_POP();
 }
-- 
2.43.0


From c105cf7fe9bc671b3a19d05dc9b2aae229ee3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 17/50] fix: trimble: disconnect the receiver if cancelled
 while connecting

---
 src/trimble/trimble_recv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_recv.c b/src/trimble/trimble_recv.c
index 29a4952..5feb9d4 100644
--- a/src/trimble/trimble_recv.c
+++ b/src/trimble/trimble_recv.c
@@ -169,11 +169,11 @@ static void mainloop()
 {
 	GPS_reset();
 
+	/* also needed if cancelled while connecting or disconnecting */
+	CLEANUP_PUSH(&cleanupParser, NULL);
 	while (true) {
 		TRIMBLE_PARSER_connect();
 
-		CLEANUP_PUSH(&cleanupParser, NULL);
-
 		GPS_reset();
 
 		while (true) {
@@ -208,8 +208,9 @@ static void mainloop()
 			}
 		}
 
-		CLEANUP_POP();
+		TRIMBLE_PARSER_disconnect();
 	}
+	CLEANUP_POP();
 }
 
 #if 0
-- 
2.43.0


From d14346b499b065fb60abce1878cf4ea6203a6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 18/50] fix: radarcape: configure the receiver with the
 settings of the moment

---
 src/radarcape/rc-parser.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..8a58e5a 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -117,6 +117,11 @@ static struct CFG_Section cfgDesc = {
 	}
 };
 
+/** Mutex: the receiver is configured by one thread at a time, with the settings
+ * of that moment */
+__attribute__((unused))
+static pthread_mutex_t configMutex = PTHREAD_MUTEX_INITIALIZER;
+
 static bool construct();
 static bool configure();
 static inline bool discardAndFill();
@@ -153,8 +158,10 @@ static bool configure()
 {
 #if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
+	bool ret;
+	CLEANUP_PUSH_LOCK(&configMutex);
 	/* setup ADSB */
-	return setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
+	ret = setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
 		setOption(filterCfg->extSquitter ?
 			RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 			RADARCAPE_OPTION_FRAME_FILTER_ALL) &&
@@ -169,6 +176,8 @@ static bool configure()
 		setOption(RADARCAPE_OPTION_MODE_AC_DECODING_DISABLED) &&
 		setOption(RADARCAPE_OPTION_Y) &&
 		setOption(RADARCAPE_OPTION_R);
+	CLEANUP_POP();
+	return ret;
 #else
 	return true;
 #endif
@@ -179,9 +188,11 @@ void INPUT_reconfigure()
 {
 #ifdef INPUT_RADARCAPE_UART
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
+	CLEANUP_PUSH_LOCK(&configMutex);
 	setOption(filterCfg->extSquitter ?
 		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 		RADARCAPE_OPTION_FRAME_FILTER_ALL);
+	CLEANUP_POP();
 #endif
 }
 
-- 
2.43.0


From bb8f44dcd52533e27c2861f4a61b974a004771c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 19/50] fix: radarcape: do not close the descriptor while
 another thread writes to it

---
 src/radarcape/uart.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..42a4315 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -29,6 +29,8 @@ static const char PFX[] = "INPUT";
 static int fd;
 /** poll set when waiting for data */
 static struct pollfd fds;
+/** mutex: the descriptor must not be closed while another thread writes to it */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 
 static bool doConnect();
 static void closeUart();
@@ -47,10 +49,12 @@ void RC_INPUT_init()
 /** Close connection */
 static void closeUart()
 {
+	CLEANUP_PUSH_LOCK(&mutex);
 	if (fd != -1) {
 		close(fd);
 		fd = -1;
 	}
+	CLEANUP_POP();
 }
 
 /** Disconnect Radarcape input */
@@ -141,7 +145,10 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
  */
 size_t RC_INPUT_write(uint8_t * buf, size_t bufLen)
 {
-	ssize_t rc = write(fd, buf, bufLen);
+	ssize_t rc;
+	CLEANUP_PUSH_LOCK(&mutex);
+	rc = write(fd, buf, bufLen);
+	CLEANUP_POP();
 	if (unlikely(rc <= 0))
 		return 0;
 	return rc;
-- 
2.43.0


From 33e7b36f736dab78d66231f7e2a691af7c7b68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 20/50] fix: cfgfile: read the last line even if it is not
 terminated

---
 src/util/cfgfile.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..d500506 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,29 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Find the end of the current line.
+ * @return pointer to the next newline or to the end of the file
+ */
+static const char * endOfLine()
+{
+	const char * n = memchr(bufferInput, '\n', bufferSize);
+	return n ? n : bufferInput + bufferSize;
+}
+
+/** Advance the parser behind the current line.
+ * @param n end of the line, as returned by endOfLine()
+ */
+static void skipLine(const char * n)
+{
+	bufferSize -= n - bufferInput;
+	bufferInput = n;
+	if (bufferSize) {
+		/* newline */
+		++bufferInput;
+		--bufferSize;
+	}
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -364,9 +387,7 @@ static enum SECTION_STATE parseSection()
 	/* get next ']' terminator */
 	const char * c = memchr(bufferInput, ']', bufferSize);
 	/* get next newline or end-of-file */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = endOfLine();
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +404,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -409,12 +429,9 @@ static enum SECTION_STATE parseSection()
 static void skipComment()
 {
 	/* search for next newline */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = endOfLine();
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(n);
 	++bufferLine;
 }
 
@@ -608,15 +625,12 @@ static bool parseOption()
 {
 	/* split option on '='-sign */
 	const char * e = memchr(bufferInput, '=', bufferSize);
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = endOfLine();
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	skipLine(n);
 
 	/* sanity check */
 	if (unlikely(n < e)) {
-- 
2.43.0


From 602832e9f20c3710a22c24d38c731dd0519fe4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 21/50] fix: cfgfile: do not dereference NULL if there is no
 '=' up to the end of the file

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d500506..718bda6 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -633,7 +633,7 @@ static bool parseOption()
 	skipLine(n);
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From b7523ab369b7b9a61565c198d0632b93c4c97224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 22/50] fix: cfgfile: do not underflow the length of an empty
 value

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 718bda6..1bf7485 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -653,7 +653,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen > 0 && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From 14a4023af5b4cd41f4abf1292d0262290a0a849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 23/50] fix: cfgfile: refuse values which are no numbers or out
 of range

---
 src/util/cfgfile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 1bf7485..97c078d 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -452,7 +452,16 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
+	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
+	if (errno == ERANGE || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
@@ -542,6 +551,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0


From c2163e83cdceb34a5790ecd9507da15ecb296584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 24/50] fix: cfgfile: report values which could not be read

---
 src/util/cfgfile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 97c078d..eed0d1b 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -680,8 +680,10 @@ static bool parseOption()
 				/* could not parse */
 				if (optOnErrorUseDefault) /* use default */
 					assignOptionFromDefault(opt);
-				else /* fail */
+				else { /* fail */
+					++bufferLine;
 					return false;
+				}
 			} else if (opt->given) {
 				*opt->given = true;
 			}
@@ -701,6 +703,8 @@ static bool parseOption()
  */
 static bool readCfg()
 {
+	bool success = true;
+
 	sectionState = SECTION_STATE_UNKNOWN;
 
 	while (bufferSize) {
@@ -727,10 +731,11 @@ static bool readCfg()
 			if (sectionState == SECTION_STATE_NOSECTION && optWarnUnknownOption)
 				LOG_logf(LOG_LEVEL_WARN, PFX, "Line %" PRIuFAST32 ": "
 					"Unexpected option outside any section", bufferLine);
-			parseOption();
+			if (!parseOption() && !optOnErrorUseDefault)
+				success = false;
 		}
 	}
-	return true;
+	return success;
 }
 
 /** Assign option from its default value.
-- 
2.43.0


From 6a94b9029b5f023b2703207c63a1245b00bd4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 25/50] fix: cfgfile: fix the configuration even if it was read
 only partially

---
 src/util/cfgfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index eed0d1b..c20f033 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -145,9 +145,8 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
 
 	MMAP_close(map);
 
-	/* fix configuration */
-	if (success)
-		fix();
+	/* fix configuration, also if only a part could be read */
+	fix();
 
 	return success;
 }
-- 
2.43.0


From 6661df874a7bb8ebf7bdb5a195f87b1477a800fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 26/50] fix: cfgfile: terminate strings which are too long

---
 src/util/cfgfile.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index c20f033..c27cc6d 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -737,6 +737,16 @@ static bool readCfg()
 	return success;
 }
 
+/** Assign a string option, truncate the string if it is too long.
+ * @param opt option to be assigned
+ * @param str string to be assigned
+ */
+static void copyString(const struct CFG_Option * opt, const char * str)
+{
+	strncpy(opt->var, str, opt->maxlen - 1);
+	((char*)opt->var)[opt->maxlen - 1] = '\0';
+}
+
 /** Assign option from its default value.
  * @param opt option to be assigned
  */
@@ -755,7 +765,7 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 		break;
 	case CFG_VALUE_TYPE_STRING:
 		if (opt->def.string)
-			strncpy(opt->var, opt->def.string, opt->maxlen);
+			copyString(opt, opt->def.string);
 		else
 			((char*)opt->var)[0] = '\0';
 		break;
@@ -848,7 +858,7 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
-		strncpy(opt->var, value, opt->maxlen);
+		copyString(opt, value);
 	}
 }
 
-- 
2.43.0


From 99913dccf121a1dba26fd3e6d2dd550b74d58371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 27/50] fix: cfgfile: report if the file could not be written

---
 src/util/cfgfile.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index c27cc6d..40fe5ab 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -917,12 +917,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const union CFG_Value * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
@@ -1011,7 +1013,12 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	/* the content is possibly not written before */
+	if (fclose(file)) {
+		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not write configuration file "
+			"'%s'", filename);
+		rc = false;
+	}
 
 	return rc;
 }
@@ -1033,7 +1040,12 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	/* the content is possibly not written before */
+	if (fclose(file)) {
+		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not write configuration file "
+			"'%s'", filename);
+		rc = false;
+	}
 
 	return rc;
 }
-- 
2.43.0


From d4bd5431adc78d71167ee5e1bbd6d01e1516f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 28/50] fix: cfgfile: write floating point numbers without loss

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 40fe5ab..d967c91 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -945,7 +945,7 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_DOUBLE:
-			if (fprintf(file, "%f\n", val->dbl) < 0)
+			if (fprintf(file, "%.17g\n", val->dbl) < 0)
 				return false;
 			break;
 		}
-- 
2.43.0


From 0992d7896c4fa49d8f3bba0557db841d91ff160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 29/50] fix: cfgfile: report files of a directory which could
 not be read

---
 src/util/cfgfile.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d967c91..9c1b2c6 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -224,15 +224,16 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -241,10 +242,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	/* free filenames */
@@ -290,7 +293,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	struct dirent * ent;
 	while ((ent = readdir(dir)) != NULL) {
 		/* build filename */
@@ -300,9 +303,10 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -311,10 +315,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	closedir(dir);
-- 
2.43.0


From c9078fe8d4653845327af0362dda7128309fe123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 30/50] fix: mmap: open empty files

---
 src/util/port/mmap-posix.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/port/mmap-posix.c b/src/util/port/mmap-posix.c
index e10595c..42c959f 100644
--- a/src/util/port/mmap-posix.c
+++ b/src/util/port/mmap-posix.c
@@ -35,7 +35,9 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 	}
 
 	/* mmap input file and close file descriptor */
-	void * ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
+	void * ptr = NULL;
+	if (st.st_size > 0) /* there is no mapping of an empty file */
+		ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
 	close(fd);
 	if (ptr == MAP_FAILED) {
 		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
@@ -55,7 +57,8 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 void MMAP_close(struct MMAP * map)
 {
 	/* unmap file */
-	munmap(map->ptr, map->len);
+	if (map->len > 0)
+		munmap(map->ptr, map->len);
 
 	free(map);
 }
-- 
2.43.0


From 57af37da9fd1a0b0b283529d253da76c2e3af75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 31/50] fix: serial_eth: close the socket used for the lookup

---
 src/util/serial_eth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..58448dc 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -75,6 +75,8 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
 
+	NOC_call(close, sock);
+
 	if (ret < 0) /* no such device */
 		return false;
 
-- 
2.43.0


From 66f9c735948c07f451f4b1b9bf2ad9acdc2edbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 32/50] fix: radarcape: refuse to start without a serial number

---
 src/radarcape/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..9a7d84f 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 2b7be95b737dc6e08dd682c34a0e827d01982ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 33/50] fix: radarcape: tell by the exit status if the
 configuration could not be saved

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 9a7d84f..6fab8d7 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool saved = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
-- 
2.43.0


From e06bda30043b1303cb6ee36e9e309fe6e24e15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 34/50] fix: list: unlinking the end of a list leaves the list
 as it is

---
 src/util/list.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..6d07864 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -73,15 +73,15 @@ static inline bool LIST_emptyD(const struct LIST_ListD * list)
  * @param link to be unlinked. Must be part of the list. If the link is
  *  the lists anchor, nothing will happen.
  * @return the link itself.
- * @note the list itself is not really needed here, but is here to unify the
- *  interface.
  */
 static inline struct LIST_LinkD * LIST_unlinkD(struct LIST_ListD * list,
 	struct LIST_LinkD * link)
 {
-	/* unlink by redirecting pointers of the previous and next link */
-	link->prev->next = link->next;
-	link->next->prev = link->prev;
+	if (likely(link != &list->anchor)) {
+		/* unlink by redirecting pointers of the previous and next link */
+		link->prev->next = link->next;
+		link->next->prev = link->prev;
+	}
 	return link;
 }
 
@@ -389,7 +389,7 @@ static inline size_t LIST_lengthDC(const struct LIST_ListDC * list)
 static inline struct LIST_LinkD * LIST_unlinkDC(struct LIST_ListDC * list,
 	struct LIST_LinkD * link)
 {
-	if (likely(list->tainted || list->length)) {
+	if (likely(link != &list->listD.anchor)) {
 		LIST_unlinkD(&list->listD, link);
 		--list->length;
 	}
-- 
2.43.0


From cce5be92df9fc0ee2185d8e0986279fad2054112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 35/50] fix: list: prepending to an empty single linked list
 must keep the last link

---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index 6d07864..af67adc 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From 69396519519cb8d438d250a16e65b8375c05921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 36/50] fix: list: count lazily counted lists before they are
 separated

---
 src/util/list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index af67adc..c1897b8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,8 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	/* count the links, if they are not counted yet */
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +541,8 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	/* count the links, if they are not counted yet */
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 9557c3976ebe1b9b47729f2fcfb408e67dcc5a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 37/50] fix: libraries: stay disabled if the components could
 not be started

---
 src/gplib/opensky.cc         | 5 ++---
 src/radarcape/lib/opensky.cc | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gplib/opensky.cc b/src/gplib/opensky.cc
index 91c52f4..c876667 100644
--- a/src/gplib/opensky.cc
+++ b/src/gplib/opensky.cc
@@ -97,9 +97,8 @@ void enable() {
 	GPS_resetNeedFlag();
 
 	BUF_flush();
-	COMP_startAll();
-
-	running = true;
+	/* feed only if there is somebody to send it */
+	running = COMP_startAll();
 }
 
 void disable() {
diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..c38c982 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -106,9 +106,8 @@ void enable()
 
 
 	BUF_flush();
-	COMP_startAll();
-
-	running = true;
+	/* feed only if there is somebody to send it */
+	running = COMP_startAll();
 }
 
 void disable()
-- 
2.43.0


From e5231dc2a29d9570690ce74d80e0bb7d801f2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 38/50] fix: fpga: wait while the configuration is not done

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..6839275 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -212,7 +212,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From 56cf4765d9a0dd7e4027325e7f1cf341633aaac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 39/50] fix: fpga: do not write beyond the buffer of the file
 name

---
 src/radarcape/fpga.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 6839275..7b6b1ca 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -7,6 +7,7 @@
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <inttypes.h>
@@ -163,16 +164,13 @@ static bool construct()
  */
 static bool program()
 {
-	char file[PATH_MAX];
+	char file[sizeof FWDIR + 1 + sizeof cfgFilename];
 
 	struct stat st;
-	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
-		strncpy(file, cfgFilename, sizeof file);
-	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
-	}
+	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0)
+		strcpy(file, cfgFilename);
+	else
+		snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename);
 
 	/* open input file */
 	int fd = open(file, O_RDONLY | O_CLOEXEC);
-- 
2.43.0


From 152036945e8e86a771d02f583422961d4570a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 40/50] fix: fpga: unmap the file if programming failed

---
 src/radarcape/fpga.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 7b6b1ca..8b411e3 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -218,11 +218,12 @@ static bool program()
 			continue;
 		}
 
-		munmap(rfd, st.st_size);
-
 		LOG_log(LOG_LEVEL_INFO, PFX, "done");
 		break;
 	}
+
+	munmap(rfd, st.st_size);
+
 	if (try == retries) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
-- 
2.43.0


From 48a62d4ed3abc37e0454e925ea3bef9adc520676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 41/50] fix: watchdog daemon: fail if the GPIO controllers
 could not be set up

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From caa8566dad77975215c935f091fefb3e76539b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:00 +0000
Subject: [PATCH 42/50] fix: refuse negative numbers in the configuration

---
 src/util/cfgfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 9c1b2c6..bc7ff21 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -463,7 +463,8 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 		err(LOG_LEVEL_ERROR, "Number expected");
 		return false;
 	}
-	if (errno == ERANGE || n > UINT32_MAX) {
+	/* strtoul() accepts and wraps negative numbers */
+	if (errno == ERANGE || n > UINT32_MAX || (n > 0 && buf[0] == '-')) {
 		err(LOG_LEVEL_ERROR, "Number out of range");
 		return false;
 	}
-- 
2.43.0


From e4e4486b52fc6763fd977c023550d922bc9ea470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:25 +0000
Subject: [PATCH 43/50] fix: uart: open flags were given as the mode

The serial devices were opened blocking, as a possible controlling terminal
(a hang-up then ends the daemon) and were inherited by started programs.
---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 42a4315..8cda97f 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From 5757665d4ec88c12c8fba827dce0afeb6b51c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:45 +0000
Subject: [PATCH 44/50] fix: simulated receiver: the last byte of a frame was
 uninitialized

---
 src/radarcape/dummy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/dummy.c b/src/radarcape/dummy.c
index 4761e89..ffa0b91 100644
--- a/src/radarcape/dummy.c
+++ b/src/radarcape/dummy.c
@@ -86,7 +86,7 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 		mbuf[0] = (random() & 0xff) - 0x7f;
 		mbuf[1] = 0x8a;
 		uint_fast32_t i;
-		for (i = 2; i < 14; ++i)
+		for (i = 2; i < sizeof mbuf; ++i)
 			mbuf[i] = random() & 0xff;
 	}
 	ptr += BEAST_encode(ptr, mbuf, 15);
-- 
2.43.0


From 7195e34c548910682aa7f2430bdf6b3b21594aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:52 +0000
Subject: [PATCH 45/50] fix: position: nan passed the check of the range

---
 src/dump1090/position.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..1561269 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -82,11 +82,11 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
-- 
2.43.0


From 93364442790208c284b5fa665265d132d170fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:52 +0000
Subject: [PATCH 46/50] fix: watchdog daemon went on as root if it could not
 drop its privileges

---
 src/util/util.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/util.c b/src/util/util.c
index 17e9395..62424fb 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -54,9 +54,8 @@ void UTIL_dropPrivileges()
 	if (chdir("/tmp")) {} /* silence gcc */
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Dropping privileges to uid %u and "
 		"gid %u\n", (unsigned)u_nobody, (unsigned)g_nobody);
-	setgroups(0, NULL);
-	if (setgid(g_nobody)) {}
-	if (setuid(u_nobody)) {}
+	if (setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody))
+		LOG_errno(LOG_LEVEL_EMERG, PFX, "Could not drop privileges");
 #endif
 }
 
-- 
2.43.0


From 980508fbd8c6866556662ae74579a8285993f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:43 +0000
Subject: [PATCH 47/50] fix: user names of exactly 40 bytes were refused

The buffer has room for them and the terminating zero, the server and the
questionnaire of the packages allow them.
---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index e48ef3c..5fc3b7a 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -63,7 +63,7 @@ static struct CFG_Section cfgDesc =
 			.name = "Username",
 			.type = CFG_VALUE_TYPE_STRING,
 			.var = &username,
-			.maxlen = OPENSKY_MAX_USERNAME,
+			.maxlen = sizeof(username),
 		}
 	}
 };
-- 
2.43.0


From 6102ee9413928e0252e5eec602bf61bd33fd36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:43 +0000
Subject: [PATCH 48/50] fix: packages: serial numbers out of range were
 accepted

The daemon refuses them and then runs without the serial number.
---
 debian/opensky-feeder-donated.config | 2 +-
 debian/opensky-feeder.config         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 8110340..bf9fc61 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -21,7 +21,7 @@ while (1) {
 		check(critical => 'longitude', (\&notempty, \&rational, &gen_range(-180, 180))),
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index d12b890..c1031ef 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -22,7 +22,7 @@ while (1) {
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'dump1090branch'),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(0, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
-- 
2.43.0


From e11bd141af3ae8875f50e452b2177842ca9cc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:43 +0000
Subject: [PATCH 49/50] fix: packages: questionnaire went round for ever
 without anybody to answer

Non-interactive installations have no position. The questions are not
shown then, so asking again does not help.
---
 debian/opensky-feeder-donated.config | 9 ++++++++-
 debian/opensky-feeder.config         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index bf9fc61..6e2d14d 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -32,10 +32,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# there is nobody who could correct the answers
+	last unless $asked || $first;
+
 	$first = 0;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index c1031ef..90d5d64 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -33,10 +33,17 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# there is nobody who could correct the answers
+	last unless $asked || $first;
+
 	$first = 0;
 }
 
-- 
2.43.0


From 141f3ca01ed111545c6925869a8f03e8d3b52338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:43 +0000
Subject: [PATCH 50/50] fix: packages: numbers with leading zeros were taken
 for octal ones

A serial number or port is written to the configuration as it was entered,
the daemon reads 017 as 15 and refuses 089.
---
 debian/opensky-feeder-donated.postinst | 4 ++++
 debian/opensky-feeder-kit.postinst     | 4 ++++
 debian/opensky-feeder.postinst         | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/debian/opensky-feeder-donated.postinst b/debian/opensky-feeder-donated.postinst
index 5fb774f..19eacf0 100644
--- a/debian/opensky-feeder-donated.postinst
+++ b/debian/opensky-feeder-donated.postinst
@@ -45,6 +45,10 @@ case "$1" in
 	db_get openskyd/port && PORT="$RET"
 	db_get openskyd/host && HOST="$RET"
 	
+	# the daemon takes numbers with leading zeros for octal ones
+	SERIAL=$(echo "$SERIAL" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+	PORT=$(echo "$PORT" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+
 	if [ -z "$PORT" ]; then
 		PORT="30005"
 	fi
diff --git a/debian/opensky-feeder-kit.postinst b/debian/opensky-feeder-kit.postinst
index ca75eef..19660f0 100644
--- a/debian/opensky-feeder-kit.postinst
+++ b/debian/opensky-feeder-kit.postinst
@@ -45,6 +45,10 @@ case "$1" in
 	db_get openskyd/port && PORT="$RET"
 	db_get openskyd/host && HOST="$RET"
 	
+	# the daemon takes numbers with leading zeros for octal ones
+	SERIAL=$(echo "$SERIAL" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+	PORT=$(echo "$PORT" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+
 	if [ -z "$PORT" ]; then
 		PORT="30005"
 	fi
diff --git a/debian/opensky-feeder.postinst b/debian/opensky-feeder.postinst
index f9dca46..5c2c7de 100644
--- a/debian/opensky-feeder.postinst
+++ b/debian/opensky-feeder.postinst
@@ -47,6 +47,10 @@ case "$1" in
 	db_get openskyd/port && PORT="$RET"
 	db_get openskyd/host && HOST="$RET"
 	
+	# the daemon takes numbers with leading zeros for octal ones
+	SERIAL=$(echo "$SERIAL" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+	PORT=$(echo "$PORT" | sed 's/^\([+-]\{0,1\}\)0*\([0-9]\)/\1\2/')
+
 	if [ -z "$PORT" ]; then
 		PORT="30005"
 	fi
-- 
2.43.0

