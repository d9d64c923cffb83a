From d5fe469302a81b80ca550fff2a9b33137d91133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 01/38] fix: initialize the pools before the database is loaded

Loading a backup that holds peers takes peers from the pool, which did not
exist yet: the tracker panicked on every restart with a non empty backup.
---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..318ce06 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// pools must be ready before the database loads peers from its backup
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From cfcd292d669dee121385710adf71b89033083809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 02/38] fix: don't prefix UDP scrape responses with zero bytes

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 0d4b2f273647105d61b3a8abd2486e964ad1176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 03/38] fix: don't share one header map between stats responses

Concurrent /stats requests wrote to the shared map, which crashes the process.
---
 tracker/http/fakeresp.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..977571c 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -8,20 +8,15 @@ import (
 // Hacky fake http response writer to serve expvar over
 
 var (
-	fakeHdr     http.Header
 	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 )
 
-func init() {
-	fakeHdr = make(http.Header)
-}
-
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	return make(http.Header)
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From 40f492ba9cae021cefa9e0d5406538e82824a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 04/38] fix: parse only the bytes of the current HTTP request

The workers reuse their read buffer, so short or cut off requests were
completed with the remains of earlier ones.
---
 tracker/http/worker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..3eccad6 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -57,7 +57,7 @@ func (w *workers) work() {
 		}
 		stats.Hits.Add(1)
 
-		p, err := parse(data, size)
+		p, err := parse(data[:size], size)
 		if err == invalidParse || p.Method != "GET" {
 			// invalid request
 			writeStatus(conn, "400")
@@ -65,7 +65,7 @@ func (w *workers) work() {
 			continue
 		} else if err != nil {
 			// error in parse
-			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data))
+			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data[:size]))
 			writeStatus(conn, "500")
 			conn.Close()
 
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From f1b77d42700c1ba064a1c29cd251428cb5a51041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 05/38] fix: don't lose requests counted while the stats are
 published

---
 tracker/stats/publish.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..c601930 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -47,11 +47,11 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 	uptime := expvar.NewInt("trakx.internal.uptime")
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
-		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// set expvars and reset requests / s stats
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
@@ -70,11 +70,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From 7c0259dee8ef50e189b5c22305decb732bf5cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 06/38] fix: lock the maps counted for the metrics

They were read while announces and sweeps modify them.
---
 tracker/stats/stats_slow.go | 2 ++
 tracker/storage/map/hash.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..ecc49b8 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -16,6 +16,8 @@ func init() {
 }
 
 func (ipstats *ipStats) Total() int {
+	ipstats.Lock()
+	defer ipstats.Unlock()
 	return len(ipstats.submap)
 }
 
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..bbec217 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -9,7 +9,8 @@ import (
 
 // Hashes gets the number of hashes
 func (db *Memory) Hashes() int {
-	// race condition but doesn't matter as it's just for metrics
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
 	return len(db.hashmap)
 }
 
-- 
2.43.0


From e810a69ee878f1f6c80afcbe7b67f55ec72bdab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 07/38] fix: read the whole 32 bit action of UDP requests

Only its lowest byte was looked at, so for example action 257 was served as
an announce instead of being answered with an error.
---
 tracker/udp/udptracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..9b095b7 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -131,7 +131,7 @@ func (u *UDPTracker) WriteConns() error {
 func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	stats.Hits.Add(1)
 
-	action := protocol.Action(data[11])
+	action := protocol.Action(binary.BigEndian.Uint32(data[8:12]))
 	txid := int32(binary.BigEndian.Uint32(data[12:16]))
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
@@ -141,8 +141,8 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
-		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
+	if action < protocol.ActionConnect || action > protocol.ActionHeartbeat {
+		msg := u.newClientError("bad action", txid, cerrFields{"action": action, "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
 	}
-- 
2.43.0


From 5d359610a9786dfceb7adfb9feb8d7a095a190c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 08/38] fix: start the signal handler once the trackers are
 initialized

It read the trackers' fields while Init was writing them, and a signal in
that window stopped the process without shutting the trackers down.
---
 tracker/tracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 318ce06..34be750 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -54,9 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	// run signal handler
-	go signalHandler(peerdb, &udptracker, &httptracker)
-
 	// run pprof server
 	if config.Config.Debug.Pprof != 0 {
 		go servePprof()
@@ -131,6 +128,9 @@ func Run() {
 		}()
 	}
 
+	// run signal handler, the trackers must be initialized before it may shut them down
+	go signalHandler(peerdb, &udptracker, &httptracker)
+
 	if config.Config.ExpvarInterval > 0 {
 		stats.Publish(peerdb, func() int64 {
 			return int64(udptracker.Connections())
-- 
2.43.0


From 32dbaffdfdbddff4c5e021b03f967e52621df441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 09/38] fix: accept an empty query and a trailing & in HTTP
 requests

The missing parameter was taken for an invalid escape and answered with 400.
---
 tracker/http/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..b13659a 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -93,6 +93,11 @@ func parse(data []byte, size int) (parsed, error) {
 		}
 
 		for i := 0; i <= pIndex; i++ {
+			// nothing follows a trailing '&' or a lone '?'
+			if p.Params[i] == nil {
+				continue
+			}
+
 			p.Params[i] = unescapeFast(p.Params[i])
 
 			// nil if escape was invalid
-- 
2.43.0


From 2187e7116cc411cc66469991b7f012d4db9ee5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 10/38] fix: allow the HTTP tracker to listen on an IPv6
 address

---
 tracker/http/httptracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 84f3014..34d36c7 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -1,8 +1,8 @@
 package http
 
 import (
-	"fmt"
 	"net"
+	"strconv"
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
@@ -27,7 +27,7 @@ func (t *HTTPTracker) Init(peerdb storage.Database) {
 
 // Serve begins listening and serving clients.
 func (t *HTTPTracker) Serve() error {
-	ln, err := net.Listen("tcp", fmt.Sprintf("%v:%v", config.Config.HTTP.IP, config.Config.HTTP.Port))
+	ln, err := net.Listen("tcp", net.JoinHostPort(config.Config.HTTP.IP, strconv.Itoa(config.Config.HTTP.Port)))
 	if err != nil {
 		return errors.Wrap(err, "Failed to open TCP listen socket")
 	}
-- 
2.43.0


From 900239463d9882d9de1c80b9473e4fc169efd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 11/38] fix: find the forwarded address only in its own header

X-Forwarded-For was also taken from the decoded query and from the values of
other headers, so clients could announce any address. A list without spaces
lost the first digit of its last address and one ending in a comma crashed
the tracker.
---
 tracker/http/forwarded_appeng.go | 6 +++---
 tracker/http/worker.go           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..180ec2f 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -8,7 +8,7 @@ import (
 )
 
 func parseForwarded(data []byte) (bool, []byte) {
-	headerKey := []byte("X-Forwarded-For: ")
+	headerKey := []byte("\r\nX-Forwarded-For: ") // only at the start of a line
 
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
@@ -27,8 +27,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
+		return true, bytes.TrimSpace(headerValue[lastItemIndex:])
 	}
 
 	return true, headerValue
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 3eccad6..30fc9b2 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data[:size])
+			forwarded, forwardedIP := parseForwarded(data[p.URLend:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From b76048a6b62a6f96ea77b13c02bee764f75269fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 12/38] fix: give up stopping a tracker that does not exit

The loop never ended while the process lived and the timeout was unreachable.
---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..b519f2a 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -84,12 +84,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
-- 
2.43.0


From 9b6ea26a7df5842ea9ed7fff1440a7537feba4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 13/38] fix: don't wait forever for a heartbeat

Anything unresponsive on the tracker's ports made status and start hang.
---
 controller/controller.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index b519f2a..a11b10f 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -18,6 +18,7 @@ import (
 
 const (
 	logFilePermissions = 0644
+	heartbeatTimeout   = 3 * time.Second
 )
 
 type Controller struct {
@@ -123,6 +124,8 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if config.Config.UDP.Enabled {
 		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
 		if err == nil {
+			defer conn.Close()
+			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
 			conn.Write(udpprotocol.HeartbeatRequest)
 			data := make([]byte, 1)
 			size, err := conn.Read(data)
@@ -135,9 +138,13 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 		}
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
-		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
-		if err == nil && resp.StatusCode == 200 {
-			heartbeat = true
+		client := http.Client{Timeout: heartbeatTimeout}
+		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		if err == nil {
+			resp.Body.Close()
+			if resp.StatusCode == 200 {
+				heartbeat = true
+			}
 		}
 	}
 
-- 
2.43.0


From eddc635dbdf85fd2a3ab10857c9d08efac4f93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 14/38] fix: refuse process ids below 1 in the process id file

kill() takes them for process groups: 0 made status report a live process
and a negative number made stop signal a whole group.
---
 controller/pidfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/pidfile.go b/controller/pidfile.go
index d148b37..950da40 100644
--- a/controller/pidfile.go
+++ b/controller/pidfile.go
@@ -39,7 +39,7 @@ func (pidFile *ProcessIDFile) Read() (int, error) {
 	}
 
 	processID, err := strconv.Atoi(string(contents))
-	if err != nil {
+	if err != nil || processID < 1 { // kill() takes these for process groups
 		return ProcessIDFailed, ErrParseFailed
 	}
 
-- 
2.43.0


From 63a2f8e0302cd44b51ddb7eec66997138245974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 15/38] fix: leave the dictionary as it was when Any fails

The key stayed behind without a value, and values that could not be encoded
were dropped silently from nested dictionaries.
---
 bencoding/dictionary.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bencoding/dictionary.go b/bencoding/dictionary.go
index b0c0901..a7fc469 100644
--- a/bencoding/dictionary.go
+++ b/bencoding/dictionary.go
@@ -95,6 +95,8 @@ func (d *Dictionary) BytesliceSlice(key string, slice [][]byte) {
 // Any tries to write given type to dictionary. It returns an error if it is unabled to write the desired type to the dictionary.
 // Any performs far worse than specific type encoding functions and should be avoided when possible.
 func (d *Dictionary) Any(key string, v interface{}) error {
+	start := len(d.buf)
+
 	// Add the key
 	d.write(str(key))
 
@@ -113,19 +115,28 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case map[string]interface{}:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]map[string]int32:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]int32:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case int, int8, int16, int32, int64:
@@ -133,6 +144,7 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case uint, uint8, uint16, uint32, uint64:
 		d.write(integer(v))
 	default:
+		d.buf = d.buf[:start]
 		return errors.New("failed to write value to dictionary: invalid type")
 	}
 
-- 
2.43.0


From eae35fca5163d547fb2cf5603ca955f9948c1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 16/38] fix: don't leak connections or crash on an empty
 database in the pg backup

Save never closed the rows of its INSERT, so each backup kept one connection.
Save and Load logged the first 20 bytes of encodings that can be shorter.
---
 tracker/storage/map/backup_pg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..0e465d6 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,12 +75,12 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Int("size", len(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,7 +123,7 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
-- 
2.43.0


From 0b451ee89e00f2645de69d21913f7b874dca5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 17/38] fix: check address lengths when decoding a backup

A negative length from a damaged file panicked and a large one allocated up
to 2 GB.
---
 tracker/storage/map/encode_binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..f5da375 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -102,6 +102,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
 				return
 			}
+			if addrSliceLen != 4 && addrSliceLen != 16 {
+				err = errors.New("invalid address length")
+				return
+			}
 			addrSlice := make([]byte, addrSliceLen)
 			if err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {
 				return
-- 
2.43.0


From 9b44623e7a058ef30539b554ca37779d43a2e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 18/38] fix: refuse backups that repeat a peer within a torrent

The repeated peer was counted twice, leaving counts that don't match.
---
 tracker/storage/map/encode_binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index f5da375..c7ff02b 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -122,6 +122,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {
 				return
 			}
+			if _, duplicate := peermap.Peers[id]; duplicate {
+				err = errors.New("duplicate peer id")
+				return
+			}
 			peermap.Peers[id] = peer
 			peers++
 
-- 
2.43.0


From a5a71658cf2767fee6a1a628aaf55bd57e666883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 19/38] fix: count more than 65535 peers per torrent and 32767
 per address

The 16 bit counters wrapped around in large swarms.
---
 tracker/stats/stats.go               | 2 +-
 tracker/stats/stats_slow.go          | 2 +-
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index ecc49b8..3aa5209 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index c7ff02b..063a9f1 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -81,7 +81,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -136,7 +136,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bbec217..ce78c3b 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -15,7 +15,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..4da2e28 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From 59e5d680a57dde201b0e803dbea9efd6b035dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 20/38] fix: replace the backup file atomically

A save that was killed or ran out of space had already truncated the last
good backup, and concurrent saves mixed their data.
---
 tracker/storage/map/backup_file.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..22f2b8b 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -2,6 +2,7 @@ package gomap
 
 import (
 	"os"
+	"sync"
 	"time"
 
 	"github.com/crimist/trakx/config"
@@ -12,7 +13,8 @@ import (
 
 // FileBackup backs up the peer database to a local file.
 type FileBackup struct {
-	db *Memory
+	mutex sync.Mutex // one save at a time
+	db    *Memory
 }
 
 func (bck *FileBackup) Init(db storage.Database) error {
@@ -63,6 +65,9 @@ func (db *Memory) loadFile(filename string) (peers int, hashes int, err error) {
 }
 
 func (bck *FileBackup) writeFile() (int, error) {
+	bck.mutex.Lock()
+	defer bck.mutex.Unlock()
+
 	var encoded []byte
 	var err error
 
@@ -72,9 +77,14 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	// write to a temporary file and rename it so an interrupted write doesn't cost the last backup
+	tempPath := config.Config.DB.Backup.Path + ".tmp"
+	if err := os.WriteFile(tempPath, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
+	if err := os.Rename(tempPath, config.Config.DB.Backup.Path); err != nil {
+		return 0, errors.Wrap(err, "failed to move written file")
+	}
 
 	return len(encoded), nil
 }
-- 
2.43.0


From fda706bf827a07df3b5d5c8c5b4e0f73926a44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 21/38] fix: lock a torrent before its peers are counted for
 the backup

A peer joining or leaving in between made the whole backup unreadable.
---
 tracker/storage/map/encode_binary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 063a9f1..bbbfc55 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -20,6 +20,9 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	for hash, submap := range db.hashmap {
 		db.mutex.RUnlock()
 
+		// the peers must not change between writing their count and writing them
+		submap.mutex.RLock()
+
 		// write hash and peermap size
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
@@ -29,7 +32,6 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From 073a19ccb7e0cc4960948c8ade0fb0d39c5a6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 22/38] fix: return compact peer lists of the wanted size
 without old peers

The wanted number was ignored, the first full address family cut off the
other one, a limit of 0 panicked, and a torrent without peers was answered
with the full length of a pooled list, holding peers of other torrents.
---
 tracker/storage/map/hash.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index ce78c3b..72d875f 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -82,8 +82,9 @@ func (db *Memory) PeerList(hash storage.Hash, numWant uint, removePeerId bool) (
 
 // PeerListBytes returns a byte encoded peer list for the given hash capped at num
 func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte, peers6 []byte) {
-	peers4 = pools.Peerlists4.Get()
-	peers6 = pools.Peerlists6.Get()
+	// pooled lists still hold the peers of earlier answers
+	peers4 = pools.Peerlists4.Get()[:0]
+	peers6 = pools.Peerlists6.Get()[:0]
 
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
@@ -102,22 +103,35 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 		return
 	}
 
+	// each list is limited to numWant peers and its capacity
+	max4, max6 := cap(peers4), cap(peers6)
+	if want4 := 6 * int(numWant); want4 < max4 {
+		max4 = want4
+	}
+	if want6 := 18 * int(numWant); want6 < max6 {
+		max6 = want6
+	}
+
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
+			if pos6+18 > max6 {
+				continue
+			}
 			copy(peers6[pos6:pos6+16], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers6[pos6+16:pos6+18], peer.Port)
 			pos6 += 18
-			if pos6+18 > cap(peers6) {
-				break
-			}
 		} else {
+			if pos4+6 > max4 {
+				continue
+			}
 			copy(peers4[pos4:pos4+4], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers4[pos4+4:pos4+6], peer.Port)
 			pos4 += 6
-			if pos4+6 > cap(peers4) {
-				break
-			}
+		}
+
+		if pos4+6 > max4 && pos6+18 > max6 {
+			break
 		}
 	}
 	peermap.mutex.RUnlock()
-- 
2.43.0


From a56482e64c162b0c6b1e8a9c98aca2ae81fdd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 23/38] fix: don't lose or miscount peers announced at the same
 time

Two first announces of a torrent created two maps and lost the peers of one,
two announces of a peer were counted twice, and a peer was updated after it
was visible to others or even back in the pool.
---
 tracker/storage/map/peer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..1bda95a 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -18,16 +18,20 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 	// if submap doesn't exist create it
 	if !ok {
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		// another announce may have created it in the meantime
+		if peermap, ok = memoryDb.hashmap[hash]; !ok {
+			peermap = memoryDb.makePeermap(hash)
+		}
 		memoryDb.mutex.Unlock()
 	}
 
+	// the peer must not be changed or removed by others until it's updated
+	peermap.mutex.Lock()
+	defer peermap.mutex.Unlock()
+
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +55,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
-- 
2.43.0


From b3284d780b84a5db4989c6ec8f9367400d05c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 24/38] fix: don't lose peers saved while their torrent is
 swept

A torrent found empty was removed without checking again under the lock.
---
 tracker/storage/map/memory.go | 11 +++++++++--
 tracker/storage/map/peer.go   |  7 +++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 4da2e28..c9c13e6 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -24,6 +24,7 @@ type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
 	Complete   uint32
 	Incomplete uint32
+	removed    bool // no longer in the database
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
@@ -107,9 +108,15 @@ func (db *Memory) trim() (peers, hashes int) {
 
 		if peersize == 0 {
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			peermap.mutex.Lock()
+			// a peer may have been saved in the meantime
+			if len(peermap.Peers) == 0 && !peermap.removed {
+				peermap.removed = true
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.Unlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 1bda95a..bc71be2 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -27,6 +27,13 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 
 	// the peer must not be changed or removed by others until it's updated
 	peermap.mutex.Lock()
+
+	// a sweep removed the map before it was locked, use a new one
+	if peermap.removed {
+		peermap.mutex.Unlock()
+		memoryDb.Save(ip, port, complete, hash, id)
+		return
+	}
 	defer peermap.mutex.Unlock()
 
 	// get peer
-- 
2.43.0


From 91610d71682b52391f6b4c13c2df0ac16a0c61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 25/38] fix: count the loaded peers before sweeps may remove
 them

The sweeps were started first, so a sweep could modify the maps while they
were counted and its removals were then overwritten in the totals.
---
 tracker/storage/database.go   | 4 ----
 tracker/storage/map/memory.go | 3 +++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index b0d7819..0048a1c 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -28,10 +28,6 @@ func Open() (Database, error) {
 		return nil, errors.Wrap(err, "failed to init storage driver")
 	}
 
-	if err := driver.db.SyncExpvars(); err != nil {
-		return nil, errors.Wrap(err, "failed to sync expvars on storage driver")
-	}
-
 	return driver.db, nil
 }
 
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index c9c13e6..5ec84cf 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -46,6 +46,9 @@ func (db *Memory) Init(backup storage.Backup) error {
 	if err := db.backup.Load(); err != nil {
 		return errors.Wrap(err, "failed to load backup")
 	}
+	if err := db.SyncExpvars(); err != nil {
+		return errors.Wrap(err, "failed to sync expvars")
+	}
 
 	if config.Config.DB.Backup.Frequency > 0 {
 		go utils.RunOn(config.Config.DB.Backup.Frequency, func() {
-- 
2.43.0


From 062b15bd6a311bab4382c754d24ee773430a6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 26/38] fix: make the HTTP info server listen on the configured
 address

It always listened on all addresses, and the tracker went on without it when
its port could not be opened.
---
 tracker/tracker.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 34be750..82b6153 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -2,9 +2,10 @@ package tracker
 
 import (
 	"expvar"
-	"fmt"
 	"math/rand"
+	"net"
 	gohttp "net/http"
+	"strconv"
 	"time"
 
 	"github.com/crimist/trakx/bencoding"
@@ -100,7 +101,7 @@ func Run() {
 		}
 
 		server := gohttp.Server{
-			Addr:         fmt.Sprintf(":%d", config.Config.HTTP.Port),
+			Addr:         net.JoinHostPort(config.Config.HTTP.IP, strconv.Itoa(config.Config.HTTP.Port)),
 			Handler:      mux,
 			ReadTimeout:  5 * time.Second,
 			WriteTimeout: 7 * time.Second,
@@ -111,7 +112,7 @@ func Run() {
 		config.Logger.Info("Running HTTP info server", zap.Int("port", config.Config.HTTP.Port))
 		go func() {
 			if err := server.ListenAndServe(); err != nil {
-				config.Logger.Error("Failed to start HTTP server", zap.Error(err))
+				config.Logger.Fatal("Failed to start HTTP server", zap.Error(err))
 			}
 		}()
 	}
-- 
2.43.0


From c48d1490b1a5b27a0457d11c3f28ead62016aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 27/38] fix: refuse an invalid UDP listen address instead of
 listening everywhere

---
 tracker/udp/udptracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 9b095b7..5b5276e 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -49,6 +49,10 @@ func (u *UDPTracker) Init(peerdb storage.Database) {
 func (u *UDPTracker) Serve() error {
 	var err error
 
+	if config.Config.UDP.IP != "" && net.ParseIP(config.Config.UDP.IP) == nil {
+		return errors.New("Invalid UDP IP '" + config.Config.UDP.IP + "'")
+	}
+
 	u.sock, err = net.ListenUDP("udp", &net.UDPAddr{
 		IP:   net.ParseIP(config.Config.UDP.IP),
 		Port: config.Config.UDP.Port,
-- 
2.43.0


From cea667788a5715bf3bbeb9d525f4785fa8a9b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 28/38] fix: send the UDP scrape counts in the order of the
 protocol

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..a4c76cf 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -40,8 +40,8 @@ func (s *Scrape) Unmarshall(data []byte) error {
 // ScrapeInfo holds the information for each infohash in the scrape response
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 51544c40a06f7bfec2f730ca1bf3b996f69befbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 29/38] fix: let a later duplicate of any announce parameter
 win

---
 tracker/http/worker.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 30fc9b2..be3b8b0 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -89,17 +89,11 @@ func (w *workers) work() {
 
 				switch key {
 				case "compact":
-					if val == "1" {
-						v.compact = true
-					}
+					v.compact = val == "1"
 				case "no_peer_id":
-					if val == "1" {
-						v.nopeerid = true
-					}
+					v.nopeerid = val == "1"
 				case "left":
-					if val == "0" {
-						v.noneleft = true
-					}
+					v.noneleft = val == "0"
 				case "event":
 					v.event = val
 				case "port":
-- 
2.43.0


From 63a923fc4977699d1b730a037bc8b5ff69a70180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 30/38] fix: don't drop an exit signal behind save signals

---
 tracker/signalhandler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index 804f98f..ac2b136 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -20,10 +20,18 @@ const exitSuccess = 0
 
 func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker) {
 	signalChannel := make(chan os.Signal, 1)
-	signal.Notify(signalChannel, os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1)
+	signal.Notify(signalChannel, syscall.SIGUSR1)
+
+	// a full channel drops signals, save signals mustn't cost an exit signal
+	exitChannel := make(chan os.Signal, 1)
+	signal.Notify(exitChannel, os.Interrupt, syscall.SIGTERM)
 
 	for {
-		sig := <-signalChannel
+		var sig os.Signal
+		select {
+		case sig = <-exitChannel:
+		case sig = <-signalChannel:
+		}
 
 		switch sig {
 		case os.Interrupt, syscall.SIGTERM: // Exit
-- 
2.43.0


From 9e2a8df768c19a5e850b6c9c234f2bfa1af27868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:08 +0000
Subject: [PATCH 31/38] fix: report another user's process as alive

---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index a11b10f..f14803b 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -114,8 +114,8 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if processid != ProcessIDFailed {
 		pidFileExists = true
 
-		// check process is alive
-		if err := syscall.Kill(processid, syscall.Signal(0)); err == nil {
+		// check process is alive, another user's may not be signalled
+		if err := syscall.Kill(processid, syscall.Signal(0)); err == nil || err == syscall.EPERM {
 			processAlive = true
 		}
 	}
-- 
2.43.0


From ca614cecc2754c1573f767b854b1bb865ef8a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 32/38] fix: send the heartbeat to the info server as well

---
 controller/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/controller.go b/controller/controller.go
index f14803b..562c978 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -137,7 +137,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 			}
 		}
 	}
-	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
+	if config.Config.HTTP.Mode == config.TrackerModeEnabled || config.Config.HTTP.Mode == config.TrackerModeInfo {
 		client := http.Client{Timeout: heartbeatTimeout}
 		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
 		if err == nil {
-- 
2.43.0


From 5ab5d7fceae42b9ea11930385db103d7e40d8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 33/38] fix: send the heartbeat to the address the tracker
 listens on

---
 controller/controller.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 562c978..5865305 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"os"
 	"os/exec"
+	"strconv"
 	"syscall"
 	"time"
 
@@ -106,6 +107,19 @@ func (controller *Controller) Clear() error {
 	return errors.Wrap(controller.processIDFile.Clear(), "failed to clear trakx process id file")
 }
 
+// heartbeatAddress returns the address at which a tracker listening on the given ip answers
+func heartbeatAddress(ip string, port int) string {
+	switch ip {
+	case "":
+		ip = "localhost"
+	case "0.0.0.0":
+		ip = "127.0.0.1"
+	case "::":
+		ip = "::1"
+	}
+	return net.JoinHostPort(ip, strconv.Itoa(port))
+}
+
 // Status returns the status of trakx by checking the following:
 // process id file exists, process id file has pid, proces is alive, heartbeat to trakx
 func (controller *Controller) Status() (pidFileExists bool, processAlive bool, heartbeat bool) {
@@ -122,7 +136,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 
 	// heartbeat checks
 	if config.Config.UDP.Enabled {
-		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
+		conn, err := net.Dial("udp", heartbeatAddress(config.Config.UDP.IP, config.Config.UDP.Port))
 		if err == nil {
 			defer conn.Close()
 			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
@@ -139,7 +153,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled || config.Config.HTTP.Mode == config.TrackerModeInfo {
 		client := http.Client{Timeout: heartbeatTimeout}
-		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		resp, err := client.Get("http://" + heartbeatAddress(config.Config.HTTP.IP, config.Config.HTTP.Port) + "/heartbeat")
 		if err == nil {
 			resp.Body.Close()
 			if resp.StatusCode == 200 {
-- 
2.43.0


From d3ac68167560ae63fcc2c89505badb13f0452aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 34/38] fix: refuse process ids above 32 bits in the process id
 file

---
 controller/pidfile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller/pidfile.go b/controller/pidfile.go
index 950da40..7358a66 100644
--- a/controller/pidfile.go
+++ b/controller/pidfile.go
@@ -38,12 +38,12 @@ func (pidFile *ProcessIDFile) Read() (int, error) {
 		return ProcessIDFailed, ErrFileEmpty
 	}
 
-	processID, err := strconv.Atoi(string(contents))
-	if err != nil || processID < 1 { // kill() takes these for process groups
+	processID, err := strconv.ParseInt(string(contents), 10, 32) // kill() ignores higher bits
+	if err != nil || processID < 1 {                             // kill() takes these for process groups
 		return ProcessIDFailed, ErrParseFailed
 	}
 
-	return processID, nil
+	return int(processID), nil
 }
 
 // Write writes the given process ID integer to the process ID file
-- 
2.43.0


From 2734de8e27625b75137fb4b23fc6cd96fa47a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:21 +0000
Subject: [PATCH 35/38] fix: record HTTP peers without a zone and IPv4-mapped
 addresses as IPv4

---
 tracker/http/worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index be3b8b0..0155926 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -127,6 +127,7 @@ func (w *workers) work() {
 				w.tracker.clientError(conn, "Failed to parse forwarded IP")
 				break
 			}
+			ip = ip.Unmap().WithZone("") // as over udp: ipv4 instead of ipv6 mapped ipv4, and the zone is ours
 
 			w.tracker.announce(conn, &v, ip)
 		case "/scrape":
-- 
2.43.0


From f9b6f39ed46fb856f719f35850c78c98174042dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:47 +0000
Subject: [PATCH 36/38] fix: don't trim the UDP connections in a busy loop if
 the interval is 0

---
 tracker/udp/udptracker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 5b5276e..c190e95 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -42,7 +42,9 @@ func (u *UDPTracker) Init(peerdb storage.Database) {
 		u.conndb.make()
 	}
 
-	go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
+	if config.Config.UDP.ConnDB.Trim > 0 {
+		go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
+	}
 }
 
 // Serve begins listening and serving clients.
-- 
2.43.0


From b4320a94eb3ec6998366bf27692e4245915cf73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:57 +0000
Subject: [PATCH 37/38] fix: apply the peer limit to the default number of
 peers

---
 tracker/http/announce.go | 12 +++++-------
 tracker/udp/announce.go  |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/tracker/http/announce.go b/tracker/http/announce.go
index 54cc543..6d3a205 100644
--- a/tracker/http/announce.go
+++ b/tracker/http/announce.go
@@ -67,14 +67,12 @@ func (t *HTTPTracker) announce(conn net.Conn, vals *announceParams, ip netip.Add
 			t.clientError(conn, "Invalid numwant")
 			return
 		}
-		numwantUint := uint(numwantInt)
+		numwant = uint(numwantInt)
+	}
 
-		// if numwant is within our limit than listen to the client
-		if numwantUint <= config.Config.Numwant.Limit {
-			numwant = numwantUint
-		} else {
-			numwant = config.Config.Numwant.Limit
-		}
+	// never more than our limit, asked for or by default
+	if numwant > config.Config.Numwant.Limit {
+		numwant = config.Config.Numwant.Limit
 	}
 
 	peerComplete := false
diff --git a/tracker/udp/announce.go b/tracker/udp/announce.go
index 73febd7..27ecf7f 100644
--- a/tracker/udp/announce.go
+++ b/tracker/udp/announce.go
@@ -22,7 +22,8 @@ func (u *UDPTracker) announce(announce *protocol.Announce, remote *net.UDPAddr,
 
 	if announce.NumWant < 1 {
 		announce.NumWant = int32(config.Config.Numwant.Default)
-	} else if announce.NumWant > int32(config.Config.Numwant.Limit) {
+	}
+	if announce.NumWant > int32(config.Config.Numwant.Limit) {
 		announce.NumWant = int32(config.Config.Numwant.Limit)
 	}
 
-- 
2.43.0


From f6460634a0048dcb38835d87d36020a3ec28f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:21 +0000
Subject: [PATCH 38/38] fix: sort the hashes of scrape answers and list each
 once

---
 tracker/http/scrape.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tracker/http/scrape.go b/tracker/http/scrape.go
index e863af9..b9de644 100644
--- a/tracker/http/scrape.go
+++ b/tracker/http/scrape.go
@@ -1,7 +1,9 @@
 package http
 
 import (
+	"bytes"
 	"net"
+	"sort"
 
 	"github.com/crimist/trakx/pools"
 	"github.com/crimist/trakx/tracker/stats"
@@ -14,7 +16,12 @@ func (t *HTTPTracker) scrape(conn net.Conn, infohashes params) {
 	dictionary := pools.Dictionaries.Get()
 	dictionary.StartDictionary("files")
 
-	for _, infohash := range infohashes {
+	// keys are sorted and occur once
+	sort.Slice(infohashes[:], func(i, j int) bool {
+		return bytes.Compare(infohashes[i], infohashes[j]) < 0
+	})
+
+	for i, infohash := range infohashes {
 		if infohash == nil {
 			continue
 		}
@@ -23,6 +30,10 @@ func (t *HTTPTracker) scrape(conn net.Conn, infohashes params) {
 			return
 		}
 
+		if i > 0 && bytes.Equal(infohash, infohashes[i-1]) {
+			continue
+		}
+
 		var hash storage.Hash
 		copy(hash[:], infohash)
 		complete, incomplete := t.peerdb.HashStats(hash)
-- 
2.43.0

