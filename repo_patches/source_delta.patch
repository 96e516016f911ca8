From d5a76d88e2f27a3f04b31dc40b43eddea8197723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 01/41] fix: firewall default verdict of BlockHTTP was inverted

A blacklist refused every client it does not name and a whitelist let every
client through. BlockProxy already had the right default.
---
 guard/firewall.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..17f17c5 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -81,7 +81,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 			}
 		}
 
-		if f.Blacklisting {
+		if !f.Blacklisting {
 			f.ErrorHandler(w, r, 403)
 			return
 		}
-- 
2.43.0


From 58fe364aa6fe36886ef26932511742525d754ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 02/41] fix: basic auth accepted empty credentials when no
 empty user exists

Looking up an unknown user gave a zero AuthUser, which the empty user name and
password match, so 'Authorization: Basic Og==' was let in.
---
 guard/basicauth.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..bfce685 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -123,6 +123,11 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 // the User and Password set in the Options struct.
 func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool {
 
+	// An unknown user has no credentials to compare with
+	if _, ok := b.Users[user]; !ok {
+		return false
+	}
+
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-- 
2.43.0


From b6896e8b08561ac86ace905266855f0d45361b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 03/41] fix: default handler of basic auth answered 200 instead
 of 401

---
 guard/basicauth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index bfce685..83a7a5b 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -54,6 +54,8 @@ func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
 		if b.UnauthorizedHandler == nil {
 			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
 				switch code {
+				case 401:
+					http.Error(w, "Unauthorized", 401)
 				case 403:
 					http.Error(w, "Forbidden", 403)
 				}
-- 
2.43.0


From 029770d767d03ee16024a0e1f3b137743336f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 04/41] fix: data race on the lazily set defaults of basic auth

---
 guard/basicauth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 83a7a5b..9c0078f 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -50,6 +50,9 @@ type AuthUser struct {
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
 
+		// Requests run concurrently and the defaults below are filled in lazily: work on a copy
+		b := b
+
 		// Check if we have a user-provided error handler, else set a default
 		if b.UnauthorizedHandler == nil {
 			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-- 
2.43.0


From 41b48388a353c6f0b05a43a5517ce3a3263104c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 05/41] fix: cache lookups returned stale, expired or foreign
 values

The scan started at the cursor, which holds the oldest item of a full ring, ran
past index 0 of the ring, gave up at any expired item, subtracted times without
regard to their order and read the value after releasing or reusing its slot.
---
 cache/find.go | 23 ++++++++++++-----------
 cache/get.go  | 32 +++++++++++++++-----------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index febe2e6..98042ac 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -41,19 +41,16 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	rangeEnd := c.shards[id].cursor - defaultItems
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,16 +59,20 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			// appendKey can reuse the slot of the item, so the item is read before
+			value := c.shards[id].items[itemID].value
+			modTime := c.shards[id].items[itemID].modTime
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			if modTime > now {
+				return true, value, 0
+			}
+			return true, value, now - modTime
 		}
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 091760e..69d8e00 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -40,20 +40,16 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
-	var itemsParsed int
+	rangeEnd := c.shards[id].cursor - defaultItems
+
+	// We range over the ring queue, from the newest item to the oldest
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
-		itemsParsed++
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,20 +58,22 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
-		}
-
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search. If it does we test if the item is within
+		// the maxAge range. If it is not we break, because any other item of this key is older.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			modTime := c.shards[id].items[itemID].modTime
+			if modTime < now && now-modTime > maxAge {
+				break
+			}
+
+			// appendKey can reuse the slot of the item, so the value is read before
+			value := c.shards[id].items[itemID].value
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From 22753d6af5b688ee6559b9cdb8077d9d91910756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 06/41] fix: concurrent first sets of a cache shard lost
 entries and could crash

Two goroutines could both create the shard: entries of the first were lost and
its unlock hit the second, unlocked mutex.
---
 cache/cache.go | 5 ++++-
 cache/find.go  | 6 ++----
 cache/get.go   | 6 ++----
 cache/set.go   | 4 +---
 cache/shard.go | 7 +++++++
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..d21ad76 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,6 +14,8 @@
 
 package cache
 
+import "sync"
+
 const (
 
 	// defaultShards is the amount of shards in SpearCache
@@ -32,7 +34,8 @@ const (
 // but appended instead. When the ring is full, the oldest entries are automatically overwritten.
 // A cache get will retrieve the newest appended entry to the queue, if it exist and is not yet expired.
 type SpearCache struct {
-	shards [defaultShards]*shard
+	shards     [defaultShards]*shard
+	initShards [defaultShards]sync.Once
 }
 
 // NewCache returns an empty SpearCache
diff --git a/cache/find.go b/cache/find.go
index 98042ac..f554458 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -33,10 +33,8 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Get current time in nano seconds
 	now := uint64(time.Now().UnixNano())
 
-	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
-		return false, nil, 0
-	}
+	// We make sure the shard exists, if it doesn't we create one
+	c.initShard(id)
 
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
diff --git a/cache/get.go b/cache/get.go
index 69d8e00..492fcb0 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -32,10 +32,8 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Get current time in nano seconds
 	now := uint64(time.Now().UnixNano())
 
-	// We make sure the shard exists, if it doesn't the key isn't stored
-	if c.shards[id] == nil {
-		return false, nil
-	}
+	// We make sure the shard exists, if it doesn't we create one
+	c.initShard(id)
 
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
diff --git a/cache/set.go b/cache/set.go
index ef527de..f87ea2b 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -29,9 +29,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	id := keyHash & (defaultShards - 1)
 
 	// We make sure the shard exists, if it doesn't we create one
-	if c.shards[id] == nil {
-		c.shards[id] = newShard()
-	}
+	c.initShard(id)
 
 	// Lock the shard for concurrency safety. We don't use defer to unlock the shard (on purpose)
 	c.shards[id].lock.Lock()
diff --git a/cache/shard.go b/cache/shard.go
index c872b53..15af3a0 100644
--- a/cache/shard.go
+++ b/cache/shard.go
@@ -37,3 +37,10 @@ type item struct {
 func newShard() *shard {
 	return &shard{}
 }
+
+// initShard makes sure the shard exists. It is safe for concurrent use.
+func (c *SpearCache) initShard(id uint64) {
+	c.initShards[id].Do(func() {
+		c.shards[id] = newShard()
+	})
+}
-- 
2.43.0


From 56f82d53afa621ca1c3b0c1efc37b2b8a0c9ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 07/41] fix: concurrent requests of one client each got a rate
 limiter of their own

---
 guard/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..81dc555 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -24,6 +25,7 @@ import (
 
 // Limiter is a type containing a MaguroHTTP Guard limiter
 type Limiter struct {
+	mu           sync.Mutex
 	cache        *cache.SpearCache
 	RatePerSec   rate.Limit
 	RateBurst    int
@@ -58,6 +60,9 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		if !l.FilterOnIP {
 			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
 		}
+
+		// Looking up a client and storing its limiter is one step: concurrent requests share the limiter
+		l.mu.Lock()
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
 		switch {
@@ -70,6 +75,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		}
 
 		l.cache.Set(remoteAddr, limit)
+		l.mu.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From 4e21ed74aaebc86e8f3cfa721331243b2d80c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 08/41] fix: rate limiter mixed up clients

Address and user agent were joined without a separator, so 10.0.0.1 with user
agent 1x and 10.0.0.11 with user agent x shared one limit.
---
 guard/limiter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index 81dc555..b62a2a9 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -58,7 +58,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 
 		remoteAddr := router.StripHostPort(r.RemoteAddr)
 		if !l.FilterOnIP {
-			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
+			remoteAddr = remoteAddr + " " + r.Header.Get("User-Agent")
 		}
 
 		// Looking up a client and storing its limiter is one step: concurrent requests share the limiter
-- 
2.43.0


From 910a9edbeb6fc96c64d1b56dc7c0bbcf36235a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 09/41] fix: metrics page could hang the server and showed
 request paths as HTML

---
 tuna/metrics.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..9eaf4e1 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -15,8 +15,10 @@
 package tuna
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"html/template"
 	"io"
 	"net/http"
 	"os"
@@ -62,26 +64,23 @@ func (md *metricsData) concat(e int, p string) {
 
 // Function to display metrics data
 func (md *metricsData) display(o io.Writer) error {
-	md.mu.Lock()
+	var buf bytes.Buffer
 
-	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
-		return err
-	}
+	// The page is composed before it is written, so that a slow or broken
+	// connection never holds the lock that every request needs
+	md.mu.Lock()
+	fmt.Fprintf(&buf, "<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)
 	for k, v := range md.Paths {
-		if _, err := io.WriteString(o, fmt.Sprintf("<br><b>%d</b><ul>", k)); err != nil {
-			return err
-		}
+		fmt.Fprintf(&buf, "<br><b>%d</b><ul>", k)
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
-				return err
-			}
-		}
-		if _, err := io.WriteString(o, fmt.Sprintf("</ul>")); err != nil {
-			return err
+			fmt.Fprintf(&buf, "<li>Amount: %d - Path: %s</li>", a, template.HTMLEscapeString(p))
 		}
+		fmt.Fprint(&buf, "</ul>")
 	}
 	md.mu.Unlock()
-	return nil
+
+	_, err := o.Write(buf.Bytes())
+	return err
 }
 
 func (s *Server) handleMetrics() http.HandlerFunc {
-- 
2.43.0


From 22877f931492cabf597d813fbb3d56f57b36030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 10/41] fix: requests during start were not counted in the
 metrics and raced with loading them

---
 tuna/metrics.go | 62 ++++++++++++++++++++++++-------------------------
 tuna/server.go  |  1 +
 2 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 9eaf4e1..1e4453a 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -46,7 +46,7 @@ type metricsData struct {
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
 		md.mu.Lock()
-		if _, ok := md.Paths[e]; ok {
+		if md.Paths[e] != nil {
 			if _, ok := md.Paths[e][p]; ok {
 				md.Paths[e][p]++
 			} else {
@@ -97,49 +97,49 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 	}
 }
 
-// Metrics Daemon
-func (s *Server) metricsDaemon() {
+// Function to initially load metrics. This happens before the server accepts
+// requests, so that all requests are counted on top of the stored metrics.
+func (s *Server) loadMetrics() {
 
-	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
-		s.metrics = metricsData{
-			enabled: false,
-		}
 		return
 	}
 
-	// We check if the file exists. If it doesn't we create an empty metricsData
-	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); err != nil {
-		s.metrics = metricsData{
-			enabled: s.Cfg.Core.Metrics.Enabled,
-			Paths:   make(map[int]map[string]int),
+	// We check if the file exists. If it doesn't we start with empty metrics
+	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); err == nil {
+
+		// Load metrics from the file
+		file, err := os.Open(s.Cfg.Core.Metrics.Out)
+		if err != nil {
+			s.Log(debug.LogError, err)
+			os.Exit(1)
+		}
+
+		// Metrics are saved in json and are decoded to a metricsData struct
+		decoder := json.NewDecoder(file)
+		err = decoder.Decode(&s.metrics)
+		if err != nil {
+			s.Log(debug.LogError, err)
+			os.Exit(1)
 		}
-		return
-	}
 
-	// Load metrics from the file
-	file, err := os.Open(s.Cfg.Core.Metrics.Out)
-	if err != nil {
+		err = file.Close()
 		s.Log(debug.LogError, err)
-		os.Exit(1)
 	}
 
-	var md metricsData
-
-	// Metrics are saved in json and are decoded to a metricsData struct
-	decoder := json.NewDecoder(file)
-	err = decoder.Decode(&md)
-	if err != nil {
-		s.Log(debug.LogError, err)
-		os.Exit(1)
+	// Stored metrics can lack paths
+	if s.metrics.Paths == nil {
+		s.metrics.Paths = make(map[int]map[string]int)
 	}
+	s.metrics.enabled = true
+}
 
-	s.metrics.TotalRequests = md.TotalRequests
-	s.metrics.Paths = md.Paths
-	s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
+// Metrics Daemon
+func (s *Server) metricsDaemon() {
 
-	err = file.Close()
-	s.Log(debug.LogError, err)
+	if !s.metrics.enabled {
+		return
+	}
 
 	// Occasionally flush metrics to disk
 	for {
diff --git a/tuna/server.go b/tuna/server.go
index e38e907..41c4e62 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -187,6 +187,7 @@ func NewInstanceFromConfig(p string) *Server {
 	s.addRoutesFromConfig()
 
 	// Handle metrics
+	s.loadMetrics()
 	go s.metricsDaemon()
 
 	// Define http transport
-- 
2.43.0


From f5df90fc28565b43d0d0dc95ed2209ee2ece707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 11/41] fix: interrupted or needless flushes destroyed the
 stored metrics

---
 tuna/metrics.go | 21 +++++++++++----------
 tuna/utils.go   | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 1e4453a..a135c3f 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -33,6 +33,7 @@ import (
 // Metrics data can be accessed concurrently
 type metricsData struct {
 	mu            sync.Mutex
+	flush         sync.Mutex
 	enabled       bool
 	TotalRequests int
 	Paths         map[int]map[string]int
@@ -150,21 +151,21 @@ func (s *Server) metricsDaemon() {
 
 // This function flushes metricsData to a file
 func (s *Server) flushMetrics() {
-	var mdout *os.File
-	var err error
 
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
+	// Metrics that aren't collected must not overwrite the stored metrics
+	if !s.metrics.enabled {
+		return
+	}
 
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
+	s.metrics.flush.Lock()
+	defer s.metrics.flush.Unlock()
 
 	s.metrics.mu.Lock()
-	bs, err := json.MarshalIndent(s.metrics, "", "  ")
-	s.Log(debug.LogError, err)
+	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.metrics.mu.Unlock()
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
+	if err == nil {
+		err = writeFile(s.Cfg.Core.Metrics.Out, bs)
+	}
 	s.Log(debug.LogError, err)
 }
diff --git a/tuna/utils.go b/tuna/utils.go
index 1d24871..b7ad00e 100644
--- a/tuna/utils.go
+++ b/tuna/utils.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"os"
 	"path/filepath"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -146,3 +147,37 @@ func (s *Server) WriteString(w io.Writer, str string) {
 
 	s.Log(debug.LogError, err)
 }
+
+// writeFile is a function to write a file as a whole. If writing is interrupted or
+// fails the previous content of the file is preserved.
+func writeFile(name string, data []byte) error {
+
+	// Links and special files are kept
+	if target, err := filepath.EvalSymlinks(name); err == nil {
+		name = target
+	}
+	mode, out, special := os.FileMode(0666), name+".tmp", false
+	if fi, err := os.Stat(name); err == nil {
+		mode = fi.Mode().Perm()
+		if special = !fi.Mode().IsRegular(); special {
+			out = name
+		}
+	}
+
+	of, err := os.OpenFile(out, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return err
+	}
+
+	_, err = of.Write(data)
+	if err == nil && !special {
+		err = of.Sync()
+	}
+	if cerr := of.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil && !special {
+		err = os.Rename(out, name)
+	}
+	return err
+}
-- 
2.43.0


From 599abf4e22ffbec2c970df319d1984f57cdc2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 12/41] fix: metrics of paths with invalid UTF-8 were lost by a
 restart

---
 tuna/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index a135c3f..7b9f36e 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -46,6 +47,10 @@ type metricsData struct {
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
+
+		// Metrics are stored as json, which cannot hold invalid UTF-8
+		p = strings.ToValidUTF8(p, "\uFFFD")
+
 		md.mu.Lock()
 		if md.Paths[e] != nil {
 			if _, ok := md.Paths[e][p]; ok {
-- 
2.43.0


From bcb82d99fa4f15682f82501c951967cc493961af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 13/41] fix: interrupted start left unusable page templates

---
 tuna/templates.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/tuna/templates.go b/tuna/templates.go
index b0737b7..c57fadd 100644
--- a/tuna/templates.go
+++ b/tuna/templates.go
@@ -45,14 +45,7 @@ func (s *Server) generateTemplates() {
 
 	// Create error template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "error.html"); err != nil {
-		of, err := os.Create(tplDir + "error.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateError)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := writeFile(tplDir+"error.html", []byte(html.PageTemplateStart+templateError+html.PageTemplateEnd))
 		s.Log(debug.LogError, err)
 	}
 
@@ -62,14 +55,7 @@ func (s *Server) generateTemplates() {
 
 	// Create download template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "download.html"); err != nil {
-		of, err := os.Create(tplDir + "download.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateDownload)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := writeFile(tplDir+"download.html", []byte(html.PageTemplateStart+templateDownload+html.PageTemplateEnd))
 		s.Log(debug.LogError, err)
 	}
 
-- 
2.43.0


From 7a871ac02b8101bb7f5db95e0b7f6d3385f5c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 14/41] fix: request targets without a leading slash made the
 proxy contact other hosts

---
 tuna/handleproxy.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..c7fa6eb 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,8 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"net/url"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -53,9 +55,17 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				return
 			}
 
+			// The path of the request is appended to the proxy host. A request target without a
+			// leading slash would alter the proxy host itself, so only its path and query are used.
+			target := r.RequestURI
+			if !strings.HasPrefix(target, "/") {
+				u := url.URL{Path: r.URL.Path, RawPath: r.URL.RawPath, RawQuery: r.URL.RawQuery}
+				target = u.RequestURI()
+			}
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
+			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
 			if err != nil {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From fa83be1d37b6c468468574ea090cf955ac9bc50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 15/41] fix: proxy rules of a virtual host for other host names
 answered empty pages

---
 tuna/handleproxy.go | 7 +++----
 tuna/routes.go      | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index c7fa6eb..d2527a3 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -28,7 +28,8 @@ import (
 
 // Function to proxy. The proxy can be configurated in configuration
 // MaguroHTTP is capable to serve HTTP and to proxy along side each other using virtual hosts
-func (s *Server) handleProxy() http.HandlerFunc {
+// The virtual host whose proxy rules apply is given by vhost
+func (s *Server) handleProxy(vhost string) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
 
 		host := router.StripHostPort(r.Host)
@@ -38,9 +39,7 @@ func (s *Server) handleProxy() http.HandlerFunc {
 		// If virtual hosting is enabled, the configuration is switched to the
 		// configuration of the vhost
 		if cfg.Core.VirtualHosting {
-			if _, ok := cfg.Core.VirtualHosts[host]; ok {
-				cfg = s.Vhosts[host]
-			}
+			cfg = s.Vhosts[vhost]
 		}
 
 		if val, ok := cfg.Proxy.Rules[host]; ok {
diff --git a/tuna/routes.go b/tuna/routes.go
index f893962..6ae4c5e 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -49,7 +49,7 @@ func (s *Server) addRoutesFromConfig() {
 			if s.Vhosts[vhost].Proxy.Enabled {
 				for host := range s.Vhosts[vhost].Proxy.Rules {
 					for _, mtd := range s.Vhosts[vhost].Proxy.Methods {
-						s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy())
+						s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy(vhost))
 					}
 
 					// Add firewall as middleware if enabled
@@ -126,7 +126,7 @@ func (s *Server) addRoutesFromConfig() {
 		if s.Cfg.Proxy.Enabled {
 			for host := range s.Cfg.Proxy.Rules {
 				for _, mtd := range s.Cfg.Proxy.Methods {
-					s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy())
+					s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy(""))
 				}
 
 				// Add firewall as middleware if enabled
-- 
2.43.0


From a88a4f3fc11810b42fb1bb04122338c88e33f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 16/41] fix: incomplete responses of a proxied host were passed
 on as complete

---
 tuna/handleproxy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index d2527a3..3918c69 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -92,13 +92,18 @@ func (s *Server) handleProxy(vhost string) http.HandlerFunc {
 				w.WriteHeader(resp.StatusCode)
 
 				// Copy back the response body to the ResponseWriter
-				_, err = io.Copy(w, resp.Body)
-				s.Log(debug.LogError, err)
+				_, copyErr := io.Copy(w, resp.Body)
+				s.Log(debug.LogError, copyErr)
 
 				// Properly close response body
 				err = resp.Body.Close()
 				s.Log(debug.LogError, err)
 				s.LogNetwork(resp.StatusCode, r)
+
+				// An incomplete response may not look like a complete one
+				if copyErr != nil {
+					panic(http.ErrAbortHandler)
+				}
 			} else {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From 5bd5e24ea979ac30f020f045fa61ad02040e523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 17/41] fix: custom error pages were sent with the status of a
 successful request

---
 tuna/handleerror.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..a69071d 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,10 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
+	"mime"
 	"net/http"
-	"os"
+	"path/filepath"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,8 +47,15 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// Custom error pages can be set in the configuration.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		if page, err := ioutil.ReadFile(val); err == nil {
+			contentType := mime.TypeByExtension(filepath.Ext(val))
+			if contentType == "" {
+				contentType = http.DetectContentType(page)
+			}
+			w.Header().Set("Content-Type", contentType)
+			w.WriteHeader(errorCode)
+			_, err = w.Write(page)
+			s.Log(debug.LogError, err)
 			return
 		}
 	}
@@ -55,8 +64,8 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From b0f4fdafe2b94b5a0731bd15ccac0ed18066bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 18/41] fix: request paths could forge lines of the log

---
 tuna/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/log.go b/tuna/log.go
index df49263..825a124 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -31,5 +31,5 @@ func (s *Server) Log(logLevel int, err error) {
 func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	host := router.StripHostPort(r.Host)
 	s.metrics.concat(statusCode, host+r.URL.Path)
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.Path, r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.EscapedPath(), r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From 22ec6bc35a9d1b622f05e157bd214a22a642196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 19/41] fix: TLS servers with missing certificates served plain
 HTTP

---
 tuna/serve.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..a59a8e1 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -74,8 +74,13 @@ func (s *Server) Serve() {
 
 	switch {
 
+	// If TLS is enabled without usable certificates the server must not fall back to plain HTTP
+	case s.Cfg.Core.TLS.Enabled && !s.httpCheckTLS():
+		s.Log(debug.LogNone, fmt.Errorf("TLS is enabled but the certificates cannot be found, stopping"))
+		os.Exit(1)
+
 	// If TLS is enabled the server will start in TLS
-	case s.Cfg.Core.TLS.Enabled && s.httpCheckTLS():
+	case s.Cfg.Core.TLS.Enabled:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s with TLS", Version, s.Cfg.Core.Port))
 		tlsc := s.httpCreateTLSConfig()
 
-- 
2.43.0


From a9add764cfe1a3c22f6b3c3cd2535ed07493bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 20/41] fix: stopping the server aborted requests that were
 being answered

---
 tuna/serve.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index a59a8e1..7fd9a93 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -47,7 +47,7 @@ func (s *Server) Serve() {
 
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
+		sig := make(chan os.Signal, 1)
 		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
@@ -66,7 +66,11 @@ func (s *Server) Serve() {
 				if err := server.Shutdown(ctx); err != nil {
 					s.Log(debug.LogNone, fmt.Errorf("could not gracefully shutdown the server: %v", err))
 				}
-				close(sig)
+
+				// Flush again to include the requests that were answered meanwhile
+				if s.Cfg.Core.Metrics.Enabled {
+					s.flushMetrics()
+				}
 				os.Exit(1)
 			}
 		}
@@ -99,7 +103,7 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 
@@ -107,8 +111,12 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 	}
+
+	// The server is being stopped by a signal, which ends the process once all
+	// requests are answered
+	select {}
 }
-- 
2.43.0


From d0f101e82ac4b131e5ce5d1f72cdd47d1818e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 21/41] fix: download page crashed on files that cannot be read

---
 tuna/handledownload.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..136eabb 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -49,7 +49,9 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
 				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
-					if f.IsDir() {
+
+					// Files that disappear or cannot be read are left out
+					if f == nil || f.IsDir() {
 						return nil
 					}
 
-- 
2.43.0


From ac6e53251f850126589040caf2c5cd482eecd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 22/41] fix: download page listed broken links and showed file
 names as HTML

---
 tuna/handledownload.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 136eabb..c1d23c0 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"html/template"
 	"net/http"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -59,8 +60,14 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					// Files are listed relative to ServeDir
+					name, err := filepath.Rel(cfg.Serve.ServeDir, path)
+					if err != nil {
+						return err
+					}
+
 					dlurls = append(dlurls, fileInfo{
-						Name:    f.Name(),
+						Name:    filepath.ToSlash(name),
 						Size:    f.Size(),
 						ModTime: f.ModTime(),
 					})
@@ -90,7 +97,9 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				link := url.URL{Path: "/" + v.Name}
+				href, name := template.HTMLEscapeString(link.EscapedPath()), template.HTMLEscapeString(v.Name)
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="`, href, `">`, name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
-- 
2.43.0


From f3bd0ca0bd063064a566ed03f42358f6b8544947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 23/41] fix: download server listed directories and could not
 deliver files named index.html

---
 tuna/handledownload.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index c1d23c0..5a24a42 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -23,6 +23,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
 )
 
@@ -118,11 +119,19 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// If the request path is not the index, and the file does exist in ServeDir
 			// the file is served and forced to be downloaded by the recipient.
 			// If the file doesn't exist, a 404 error is returned.
-		} else if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		} else if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && fi.Mode().IsRegular() {
+			file, err := os.Open(cfg.Serve.ServeDir + path)
+			if err != nil {
+				s.Log(debug.LogError, err)
+				s.HandleError(w, r, 403)
+				return
+			}
+			defer file.Close()
+
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
+			http.ServeContent(w, r, fi.Name(), fi.ModTime(), file)
 			s.LogNetwork(200, r)
 		} else {
 
-- 
2.43.0


From 2d0b5bd953af3aa4df57349bb092b0f5836b6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 24/41] fix: unreadable metrics were overwritten instead of
 kept

---
 tuna/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7b9f36e..f9dcef2 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -112,7 +112,7 @@ func (s *Server) loadMetrics() {
 	}
 
 	// We check if the file exists. If it doesn't we start with empty metrics
-	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); err == nil {
+	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); !os.IsNotExist(err) {
 
 		// Load metrics from the file
 		file, err := os.Open(s.Cfg.Core.Metrics.Out)
-- 
2.43.0


From c067a2cd249f0a5444c222675f1451b2e7a27861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 25/41] fix: proxy cut off the part of the request target after
 '#' that the firewall had judged

---
 tuna/handleproxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 3918c69..a8a9ff8 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -62,6 +62,9 @@ func (s *Server) handleProxy(vhost string) http.HandlerFunc {
 				target = u.RequestURI()
 			}
 
+			// A request target has no fragment, so everything behind a '#' belongs to the path or the query
+			target = strings.Replace(target, "#", "%23", -1)
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
 			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
-- 
2.43.0


From 7113fee5a989f492d7d1b6a73f5f48684c34df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 26/41] fix: a proxied status code below 100 aborted the
 request and leaked the connection

---
 tuna/handleproxy.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index a8a9ff8..75e5b8e 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -16,6 +16,7 @@ package tuna
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"net/http"
@@ -83,7 +84,15 @@ func (s *Server) handleProxy(vhost string) http.HandlerFunc {
 			req.RemoteAddr = r.RemoteAddr
 
 			// the new request is executed with a http.RoundTripper.
-			if resp, err := s.Transport.RoundTrip(req); err == nil {
+			resp, err := s.Transport.RoundTrip(req)
+
+			// A response with a status code that is not HTTP cannot be passed on
+			if err == nil && resp.StatusCode < 100 {
+				err = fmt.Errorf("invalid status code %d of %s", resp.StatusCode, val)
+				s.Log(debug.LogError, resp.Body.Close())
+			}
+
+			if err == nil {
 
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
-- 
2.43.0


From a95525462b1533d5139d7e9986f5198074ebe7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 27/41] fix: download page listed symbolic links and special
 files that cannot be downloaded

---
 tuna/handledownload.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 5a24a42..6c203c8 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -61,6 +61,13 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					// Symbolic links are listed as the file they lead to. Only regular
+					// files can be downloaded
+					f, err := os.Stat(path)
+					if err != nil || !f.Mode().IsRegular() {
+						return nil
+					}
+
 					// Files are listed relative to ServeDir
 					name, err := filepath.Rel(cfg.Serve.ServeDir, path)
 					if err != nil {
-- 
2.43.0


From 4e4020cfba1b4ca036be51140280e14cb5a63d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 28/41] fix: file sites without a directory or index exposed
 the file system

---
 tuna/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..80ef864 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -268,7 +268,7 @@ func (c *Config) Validate(p string, isVhost bool) {
 	}
 
 	// Test serve
-	if !c.Proxy.Enabled && c.Serve.Download.Enabled {
+	if !c.Proxy.Enabled && (c.Serve.Download.Enabled || len(c.Serve.Methods) > 0) {
 		if c.Serve.ServeDir == "" || c.Serve.ServeIndex == "" {
 			log.Fatalf("%s: The server configuration has missing elements: check ServeDir and ServeIndex", p)
 		}
-- 
2.43.0


From ab47d08c34a478c6ee3882f30b4d3cd0274c67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 29/41] fix: starting without a configuration crashed after
 printing the usage

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 9ac45a1..27318cd 100644
--- a/main.go
+++ b/main.go
@@ -26,6 +26,7 @@ func main() {
 
 	if len(args) <= 1 {
 		showHelp(args)
+		return
 	}
 
 	m := tuna.NewInstanceFromConfig(args[1])
-- 
2.43.0


From 1fbbc59da592151b09393251e31efeed0b4b3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 30/41] fix: unreadable files were answered without the site's
 error page and logged as 200

---
 tuna/handleserve.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 2aee95e..1d9110d 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -18,6 +18,7 @@ import (
 	"net/http"
 	"os"
 
+	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
 )
 
@@ -47,7 +48,19 @@ func (s *Server) handleServe() http.HandlerFunc {
 
 		// Serve the file that is requested by path if it esists in ServeDir.
 		// If the requested path doesn't exist, return a 404 error
-		if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+
+			// A file that cannot be read is answered with a 403 error
+			if fi.Mode().IsRegular() {
+				file, err := os.Open(cfg.Serve.ServeDir + path)
+				if err != nil {
+					s.Log(debug.LogError, err)
+					s.HandleError(w, r, 403)
+					return
+				}
+				file.Close()
+			}
+
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-- 
2.43.0


From 055073287ad465debbee817f60bc57ec79d5c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 31/41] fix: partial, unchanged and moved files were logged and
 counted as 200

---
 tuna/handledownload.go |  5 +++--
 tuna/handleserve.go    |  5 +++--
 tuna/utils.go          | 17 +++++++++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 6c203c8..45c9519 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -138,8 +138,9 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeContent(w, r, fi.Name(), fi.ModTime(), file)
-			s.LogNetwork(200, r)
+			rec := &statusRecorder{w, http.StatusOK}
+			http.ServeContent(rec, r, fi.Name(), fi.ModTime(), file)
+			s.LogNetwork(rec.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error.
diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 1d9110d..6abc459 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -63,8 +63,9 @@ func (s *Server) handleServe() http.HandlerFunc {
 
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-			s.LogNetwork(200, r)
+			rec := &statusRecorder{w, http.StatusOK}
+			http.ServeFile(rec, r, cfg.Serve.ServeDir+path)
+			s.LogNetwork(rec.status, r)
 		} else {
 
 			// Path wasn't found, so we return a 404 not found error
diff --git a/tuna/utils.go b/tuna/utils.go
index b7ad00e..2953862 100644
--- a/tuna/utils.go
+++ b/tuna/utils.go
@@ -148,6 +148,23 @@ func (s *Server) WriteString(w io.Writer, str string) {
 	s.Log(debug.LogError, err)
 }
 
+// statusRecorder is a http.ResponseWriter that keeps the status code of a response
+type statusRecorder struct {
+	http.ResponseWriter
+	status int
+}
+
+// WriteHeader implements http.ResponseWriter
+func (sr *statusRecorder) WriteHeader(statusCode int) {
+	sr.status = statusCode
+	sr.ResponseWriter.WriteHeader(statusCode)
+}
+
+// ReadFrom implements io.ReaderFrom, so that files can still be sent by the operating system
+func (sr *statusRecorder) ReadFrom(src io.Reader) (int64, error) {
+	return io.Copy(sr.ResponseWriter, src)
+}
+
 // writeFile is a function to write a file as a whole. If writing is interrupted or
 // fails the previous content of the file is preserved.
 func writeFile(name string, data []byte) error {
-- 
2.43.0


From 027803cc0012212f430275f8bad3e69a85c61125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 32/41] fix: templates that fail left half a page with a wrong
 status or nothing at all

---
 tuna/handledownload.go | 7 ++++++-
 tuna/handleerror.go    | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 45c9519..b52ff49 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -117,10 +117,15 @@ func (s *Server) handleDownload() http.HandlerFunc {
 				DownloadTable: template.HTML(buf.String()),
 			}
 
-			if err := s.templates.download.Execute(w, data); err != nil {
+			// The page is composed before it is written, so that a failure can be answered
+			page := bytes.NewBuffer(nil)
+			if err := s.templates.download.Execute(page, data); err != nil {
+				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 500)
 				return
 			}
+			_, err := w.Write(page.Bytes())
+			s.Log(debug.LogError, err)
 			s.LogNetwork(200, r)
 
 			// If the request path is not the index, and the file does exist in ServeDir
diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index a69071d..723ad40 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -65,7 +65,6 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
 	w.Header().Set("Content-Type", "text/html")
-	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
@@ -89,7 +88,13 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 		HTTPError: template.HTML(buf.String()),
 	}
 
-	if err := s.templates.error.Execute(w, data); err != nil {
+	// The page is composed before it is written. If the template fails only the message is shown
+	page := bytes.NewBuffer(nil)
+	if err := s.templates.error.Execute(page, data); err != nil {
 		s.Log(debug.LogError, err)
+		page = buf
 	}
+	w.WriteHeader(errorCode)
+	_, err := w.Write(page.Bytes())
+	s.Log(debug.LogError, err)
 }
-- 
2.43.0


From 9cc4ab0be2b9617ac2631a74a48b48603db18226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 33/41] fix: firewall rules with a trailing slash did not cover
 what is below their path

---
 guard/firewall.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 17f17c5..1c87878 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -43,6 +43,16 @@ func NewFirewall() *Firewall {
 	}
 }
 
+// clients returns the clients that the rules name for pt. A rule that ends in a slash
+// covers what is below pt as well, but not pt itself.
+func (f *Firewall) clients(pt string, below bool) []string {
+	val := f.Rules[pt]
+	if below {
+		val = append(val[:len(val):len(val)], f.Rules[pt+"/"]...)
+	}
+	return val
+}
+
 // BlockHTTP is a middleware function to add a firewall to HTTP handlers
 func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
@@ -51,7 +61,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		host := router.StripHostPort(r.RemoteAddr)
 
 		for pt := p; pt != "/"; pt = path.Dir(pt) {
-			if val, ok := f.Rules[pt]; ok {
+			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
 						if f.Blacklisting {
@@ -98,7 +108,7 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 		host := router.StripHostPort(r.RemoteAddr)
 
 		for pt := p; pt != "/"; pt = path.Dir(pt) {
-			if val, ok := f.Rules[pt]; ok {
+			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
 						if f.Blacklisting {
-- 
2.43.0


From e14de318d4cd942fab8786f43edb2a8541042bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 34/41] fix: the firewall looped forever on request paths
 without a leading slash

---
 guard/firewall.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 1c87878..9b704e0 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -60,7 +60,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
@@ -107,7 +107,7 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
 			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
-- 
2.43.0


From 418680d1b3a794db5f3337959002ed519d10f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 35/41] fix: find routes and firewall rules of very long paths
 in reasonable time

The walk over the ancestors of a request path took quadratic time: a request
with a path of some hundred kilobytes kept a CPU busy for minutes.
---
 guard/firewall.go    | 35 +++++++++++++++++++++++++++++++++--
 router/middleware.go |  3 +++
 router/route.go      | 20 +++++++++++++++++++-
 router/router.go     |  7 +++++++
 4 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 9b704e0..68d1f6a 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -17,6 +17,7 @@ package guard
 import (
 	"net/http"
 	"path"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/router"
 )
@@ -53,14 +54,43 @@ func (f *Firewall) clients(pt string, below bool) []string {
 	return val
 }
 
+// longest returns the length of the longest rule
+func (f *Firewall) longest() int {
+	longest := 0
+	for rule := range f.Rules {
+		if len(rule) > longest {
+			longest = len(rule)
+		}
+	}
+	return longest
+}
+
+// parent returns the nearest ancestor of pt that a rule can name. Ancestors that are longer than
+// every rule are skipped: the walk would take minutes for a very long path.
+func parent(pt string, longest int) string {
+	pt = path.Dir(pt)
+	if len(pt) > longest {
+		i := strings.LastIndexByte(pt[:longest+1], '/')
+		if i < 0 {
+			return "."
+		}
+		if i == 0 {
+			return "/"
+		}
+		pt = pt[:i]
+	}
+	return pt
+}
+
 // BlockHTTP is a middleware function to add a firewall to HTTP handlers
 func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
 
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
+		longest := f.longest()
 
-		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = parent(pt, longest) {
 			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
@@ -106,8 +136,9 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
+		longest := f.longest()
 
-		for pt := p; pt != "/" && pt != "."; pt = path.Dir(pt) {
+		for pt := p; pt != "/" && pt != "."; pt = parent(pt, longest) {
 			if val := f.clients(pt, pt != p); len(val) > 0 {
 				for _, v := range val {
 					if v == host || v == "*" {
diff --git a/router/middleware.go b/router/middleware.go
index 24b9377..24a9e7a 100644
--- a/router/middleware.go
+++ b/router/middleware.go
@@ -71,6 +71,9 @@ func (sr *SRouter) UseMiddleware(host, path string, handler Middleware) {
 			middleware: []Middleware{},
 		}
 	}
+	if len(host+path) > sr.longest {
+		sr.longest = len(host + path)
+	}
 
 	pathRoute := sr.routes[host+path]
 	pathRoute.middleware = append(pathRoute.middleware, handler)
diff --git a/router/route.go b/router/route.go
index 130c39e..4b10f90 100644
--- a/router/route.go
+++ b/router/route.go
@@ -147,7 +147,7 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 		// We haven't found an exact match, so we search for a subpath. For example:
 		// request has path /foo/bar. The path /foo/bar doesn't exist. So we search if
 		// the path /foo exists. We don't bother with fallback allowance just yet.
-		for pa := urlPath; pa != "/"; pa = path.Dir(pa) {
+		for pa := urlPath; pa != "/"; pa = sr.parent(host, pa) {
 			if route, ok := sr.routes[host+pa]; ok {
 				match = true
 				exactMatch = false
@@ -175,6 +175,24 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 	return match, exactMatch, pathRouteMatch
 }
 
+// parent returns the nearest ancestor of a path that can be registered for a host. Ancestors that are
+// longer than every registered path are skipped: the walk would take minutes for a very long path.
+func (sr *SRouter) parent(host, urlPath string) string {
+	pa := path.Dir(urlPath)
+	longest := sr.longest - len(host)
+	if longest < 1 {
+		return "/"
+	}
+	if len(pa) > longest {
+		i := strings.LastIndexByte(pa[:longest+1], '/')
+		if i < 1 {
+			return "/"
+		}
+		pa = pa[:i]
+	}
+	return pa
+}
+
 func (mr *methodRoute) contentAllowed(contentType string) bool {
 
 	if mr.content == "*" {
diff --git a/router/router.go b/router/router.go
index e3ba012..40eb09c 100644
--- a/router/router.go
+++ b/router/router.go
@@ -64,6 +64,9 @@ type SRouter struct {
 	mu     sync.RWMutex
 	routes map[string]pathRoute
 
+	// longest is the length of the longest key of routes
+	longest int
+
 	// ErrorHandler allows to define a custom handler for errors. It takes ErrorHandler as type,
 	// which implements the http.Error function (w http.ResponseWriter, error string, code int).
 	ErrorHandler ErrorHandler
@@ -150,6 +153,10 @@ func (sr *SRouter) AddRoute(host, path string, fallback bool, method, content st
 		sr.routes = make(map[string]pathRoute)
 	}
 
+	if len(host+path) > sr.longest {
+		sr.longest = len(host + path)
+	}
+
 	pathRouteAdd := pathRoute{
 		subRoutes:  make(map[string]methodRoute),
 		middleware: []Middleware{},
-- 
2.43.0


From 67bc1eb7c9f16facb7818d05bcfefb2e9e7df8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 36/41] fix: do not take a part of the host for a part of the
 path

An HTTP/2 client can send a host with a slash. Together with the path it
matched routes of other paths and hosts, so that files without a route were
served.
---
 router/route.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router/route.go b/router/route.go
index 4b10f90..cf430a5 100644
--- a/router/route.go
+++ b/router/route.go
@@ -134,6 +134,12 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 	var exactMatch bool
 	var match bool
 
+	// Clients can put a slash into the host, which then is no host of a route: the part behind the
+	// slash would be taken for the beginning of the path.
+	if strings.IndexByte(host, '/') > -1 {
+		return match, exactMatch, pathRouteMatch
+	}
+
 	for {
 
 		// Search for an exact host+path match
-- 
2.43.0


From 449fd8350b63a10cb0d79bf4fd45b2ba02850130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 37/41] fix: keep spaces of a host or query out of the log

An HTTP/2 client could name another client address in its line of the log.
---
 tuna/log.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tuna/log.go b/tuna/log.go
index 825a124..5921c8f 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -17,6 +17,7 @@ package tuna
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -31,5 +32,8 @@ func (s *Server) Log(logLevel int, err error) {
 func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	host := router.StripHostPort(r.Host)
 	s.metrics.concat(statusCode, host+r.URL.Path)
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.EscapedPath(), r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
+
+	// HTTP/2 clients can put spaces into the host and the query, which would pass for other parts of the line
+	request := strings.NewReplacer(" ", "%20", "\t", "%09").Replace(r.Host + r.URL.EscapedPath() + r.URL.RawQuery)
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s IP=%s User-Agent=%s", statusCode, r.Method, request, r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From f0bcf859412ab1b49a0d2fa2f88e2a9ae6983a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 38/41] fix: do not pass spaces of a query on to the upstream

An HTTP/2 client can send them; they broke the request line of the upstream request.
---
 tuna/handleproxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 75e5b8e..7b52c58 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -63,8 +63,9 @@ func (s *Server) handleProxy(vhost string) http.HandlerFunc {
 				target = u.RequestURI()
 			}
 
-			// A request target has no fragment, so everything behind a '#' belongs to the path or the query
-			target = strings.Replace(target, "#", "%23", -1)
+			// A request target has no fragment, so everything behind a '#' belongs to the path or the query,
+			// and a space, that HTTP/2 clients can send, would end it early in the request line
+			target = strings.NewReplacer("#", "%23", " ", "%20").Replace(target)
 
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-- 
2.43.0


From 75693255f0187ef731e773117650ec504a60afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 39/41] fix: answer 404 for pipes, sockets and directories
 named as the index

---
 tuna/handleserve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 6abc459..e7b6f9e 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -47,8 +47,9 @@ func (s *Server) handleServe() http.HandlerFunc {
 		}
 
 		// Serve the file that is requested by path if it esists in ServeDir.
-		// If the requested path doesn't exist, return a 404 error
-		if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		// If the requested path doesn't exist, return a 404 error. The same goes for pipes, sockets and
+		// the like, and for a directory that is named as the index: it would be listed
+		if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && (fi.Mode().IsRegular() || fi.IsDir() && path == r.URL.Path) {
 
 			// A file that cannot be read is answered with a 403 error
 			if fi.Mode().IsRegular() {
-- 
2.43.0


From 4230cf1b56cd854922374ae439166849ca5dc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 40/41] fix: serve files called index.html where the index has
 another name

---
 tuna/handleserve.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index e7b6f9e..6c0dafb 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -52,20 +52,30 @@ func (s *Server) handleServe() http.HandlerFunc {
 		if fi, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && (fi.Mode().IsRegular() || fi.IsDir() && path == r.URL.Path) {
 
 			// A file that cannot be read is answered with a 403 error
+			var file *os.File
 			if fi.Mode().IsRegular() {
-				file, err := os.Open(cfg.Serve.ServeDir + path)
+				if file, err = os.Open(cfg.Serve.ServeDir + path); err == nil {
+					defer file.Close()
+					fi, err = file.Stat()
+				}
 				if err != nil {
 					s.Log(debug.LogError, err)
 					s.HandleError(w, r, 403)
 					return
 				}
-				file.Close()
 			}
 
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			rec := &statusRecorder{w, http.StatusOK}
-			http.ServeFile(rec, r, cfg.Serve.ServeDir+path)
+
+			// http.ServeFile is for directories, which it redirects to themselves with a slash. It does not
+			// serve files called index.html, but redirects to their directory, that can have another index
+			if file != nil {
+				http.ServeContent(rec, r, fi.Name(), fi.ModTime(), file)
+			} else {
+				http.ServeFile(rec, r, cfg.Serve.ServeDir+path)
+			}
 			s.LogNetwork(rec.status, r)
 		} else {
 
-- 
2.43.0


From 2b9feb3f5889ca3f13c16260fec5065988822833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 41/41] fix: cut off HTTP/2 clients that do not read

---
 tuna/serve.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuna/serve.go b/tuna/serve.go
index 7fd9a93..1b680d1 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -42,6 +42,7 @@ func (s *Server) Serve() {
 		ReadHeaderTimeout: time.Duration(s.Cfg.Core.ReadHeaderTimeout) * time.Second,
 		WriteTimeout:      time.Duration(s.Cfg.Core.WriteTimeout) * time.Second,
 		IdleTimeout:       30 * time.Second,
+		HTTP2:             &http.HTTP2Config{WriteByteTimeout: time.Duration(s.Cfg.Core.WriteTimeout) * time.Second},
 		ErrorLog:          s.logInterface.Instance,
 	}
 
-- 
2.43.0

