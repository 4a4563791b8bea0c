From 4507a691e28ab80b884e2974d03f561608145d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/45] fix: refuse a negative database index in SELECT

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From d243e4fcb6b56e51b8e031847efa8321108ca5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 02/45] fix: refuse negative and oversized lengths in requests

---
 server/resp.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index c781c6f..8bf45d4 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -7,7 +7,11 @@ import (
 	"github.com/pkg/errors"
 )
 
-const MaxInlineSize = 1024 * 64
+const (
+	MaxInlineSize   = 1024 * 64
+	maxMultiBulkLen = 1024 * 1024
+	maxBulkLen      = 1024 * 1024 * 512
+)
 
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
@@ -92,6 +96,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > maxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -129,6 +137,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get multi bulk length")
 		}
 
+		if num < 0 || num > maxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -159,6 +171,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > maxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.moveToNextLineInQueryBuffer(index)
 		}
-- 
2.43.0


From e760d1b3f9f894bb75002d2a6b64534ff6599e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 03/45] fix: do not crash on an empty inline request

---
 server/resp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/resp.go b/server/resp.go
index 8bf45d4..75a22cc 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -71,6 +71,13 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	if index == 0 {
+		// empty line
+		client.moveToNextLineInQueryBuffer(index)
+
+		return true, nil
+	}
+
 	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
-- 
2.43.0


From 5794e2875cc985a4c95e7de768638d021bc2ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 04/45] fix: wait for the terminator of a bulk argument

---
 server/resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index 75a22cc..84c175b 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -186,7 +186,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
-- 
2.43.0


From e2ce73c4b96c19642aaa840bc7d2fbe82af147d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 05/45] fix: resume an empty bulk argument that arrives in
 pieces

---
 server/client.go | 5 +++--
 server/resp.go   | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..0e3719c 100644
--- a/server/client.go
+++ b/server/client.go
@@ -33,7 +33,7 @@ type Client struct {
 	cmdType       CommandType
 	args          []string
 	multiBulkLen  int
-	bulkLen       int
+	bulkLen       int        // -1 if the length of the next argument is not known yet
 	replayHead    *list.List // string
 	sentLen       int
 	authenticated bool // when server requirPassword is not empty, client must auth first
@@ -45,6 +45,7 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 		db:         srv.dbs[0],
 		fd:         fd,
 		queryBuf:   make([]byte, maxBulk),
+		bulkLen:    -1,
 		replayHead: list.New(),
 	}
 }
@@ -201,5 +202,5 @@ func (c *Client) reset() {
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-	c.bulkLen = 0
+	c.bulkLen = -1
 }
diff --git a/server/resp.go b/server/resp.go
index 84c175b..2a24235 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -88,7 +88,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if client.bulkLen < 0 {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -123,7 +123,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-	client.bulkLen = 0
+	client.bulkLen = -1
 
 	return true, nil
 }
@@ -159,7 +159,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if client.bulkLen < 0 {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -196,7 +196,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 		}
 
 		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
-		client.bulkLen = 0
+		client.bulkLen = -1
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From 1fb5ae73e1e8dea95aa7e3796b5141c9cfcb2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 06/45] fix: keep pipelined requests that follow a complete one

---
 server/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 0e3719c..d6599cf 100644
--- a/server/client.go
+++ b/server/client.go
@@ -196,9 +196,8 @@ func (c *Client) free() {
 
 }
 
+// reset prepares the client for the next request, which may already be in the query buffer.
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From 2d19b70b92f8dd14aacf167cb15af9d33946e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 07/45] fix: close a connection whose socket cannot be read

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 03d4f50..6920da4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -191,6 +191,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 			nRead = 0
 		default:
 			log.Error("failed to read", zap.Error(err))
+			client.free()
 
 			return
 		}
-- 
2.43.0


From 5624156e43d72ec3e7903a9ae102fc2fc138f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 08/45] fix: do not close the descriptor of a connection twice

---
 server/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index d6599cf..0e640f4 100644
--- a/server/client.go
+++ b/server/client.go
@@ -192,8 +192,9 @@ func (c *Client) free() {
 
 	if c.fd >= 0 {
 		_ = c.fd.Close()
+		// the descriptor number may be reused by another connection from now on
+		c.fd = -1
 	}
-
 }
 
 // reset prepares the client for the next request, which may already be in the query buffer.
-- 
2.43.0


From 18aa3cdd09fc9b059b7cb8dee18c2ddf9036bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 09/45] fix: do not dispatch events that were removed by an
 earlier handler

---
 ae/ae.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..7fa3528 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -200,6 +200,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// skip the event if a previous handler has removed it
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From 101c2547ac36f25b36bd88ab0524caf10840fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 10/45] fix: never send a reply before its command is in the
 log

---
 ae/ae.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index 7fa3528..d24f975 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -229,7 +229,9 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 		fileEvents []*FileEvent
 	)
 
-	epollEventTypes := []uint32{syscall.EPOLLIN, syscall.EPOLLOUT}
+	// writable events go first, so that a reply to a request read in this iteration
+	// is never sent before the next call of beforeSleep
+	epollEventTypes := []uint32{syscall.EPOLLOUT, syscall.EPOLLIN}
 	for i := 0; i < nReady; i++ {
 		ev := events[i]
 		for _, epollEventType := range epollEventTypes {
-- 
2.43.0


From d24df5cf75683a812e712fdcd4b04777f46602fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 11/45] fix: sync the log within a second also if no further
 command arrives

---
 server/aof.go    | 26 ++++++++++++++------------
 server/server.go |  1 +
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..541833f 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -93,21 +93,22 @@ func catAppendOnlyGenericCommand(args []string) string {
 
 // flushAppendOnlyFile flushes the AOF buffer on disk.
 func flushAppendOnlyFile(srv *Server) {
-	if srv.aofBuf.Len() == 0 {
-		return
-	}
+	if srv.aofBuf.Len() > 0 {
+		aofStr := srv.aofBuf.String()
+		nWritten, err := srv.aofFile.WriteString(aofStr)
+		if err != nil {
+			log.Fatal("failed to write to aof file", zap.Error(err))
+		}
 
-	aofStr := srv.aofBuf.String()
-	nWritten, err := srv.aofFile.WriteString(aofStr)
-	if err != nil {
-		log.Fatal("failed to write to aof file", zap.Error(err))
+		srv.aofBuf.Reset()
+		srv.aofCurrentSize += uint(nWritten)
+		srv.aofUnsynced = true
 	}
 
-	srv.aofBuf.Reset()
-	srv.aofCurrentSize += uint(nWritten)
-
-	// fsync if needed
-	aofFileSync(srv)
+	// fsync if needed, also when the data was written a while ago
+	if srv.aofUnsynced {
+		aofFileSync(srv)
+	}
 }
 
 // aofFileSync syncs the AOF file if needed.
@@ -129,6 +130,7 @@ func aofFileSync(srv *Server) {
 		}
 
 		srv.aofLastFsyncTime = now
+		srv.aofUnsynced = false
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index 6920da4..14dee9a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -50,6 +50,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
+	aofUnsynced      bool // data was written to the AOF file after the last fsync
 	aofSelectDBID    int
 	aofFile          *os.File
 	aofBuf           strings.Builder
-- 
2.43.0


From 0c92c576ed0d2ad8bc07d022bf0554d544471494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 12/45] fix: do not use the log file of the event loop in the
 background sync

---
 server/aof.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 541833f..068158d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -122,8 +122,10 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			aofFile := srv.aofFile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				// a rewrite may have replaced (and closed) the file in the meantime
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
-- 
2.43.0


From 3760b764d72546009514574191dd5efbf71466a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 13/45] fix: read log records completely when loading

---
 server/aof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 068158d..1bc825a 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -194,12 +194,12 @@ func loadAppendOnlyFile(srv *Server) {
 			}
 
 			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
+			if _, err := io.ReadFull(reader, arg); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
 			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
+			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-- 
2.43.0


From e2787f08a097b23d64fdd731d80081f79f1c30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 14/45] fix: log the database of the first command after a
 restart

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 14dee9a..58bc7f2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -77,6 +77,7 @@ func NewServer(config *config.Config) *Server {
 		aofEnable:         config.AofEnable,
 		aofFilename:       config.AofFilename,
 		aofFsync:          config.AofFsync,
+		aofSelectDBID:     -1, // the log may end in any database
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
-- 
2.43.0


From 1e4b2c2264d9f912786906d9487e875a3ce91249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 15/45] fix: log the database of the first command after a
 rewrite

---
 server/aof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 1bc825a..1ce9ab1 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -224,6 +224,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		return
 	}
 
+	// the rewritten file may end in any database, so the differences must start with SELECT
+	srv.aofSelectDBID = -1
+
 	tmpDBs := make([]*database.Databse, len(srv.dbs))
 	for i, db := range srv.dbs {
 		tmpDBs[i] = db.DeepCopy()
-- 
2.43.0


From b9fc706ef5036cd5cba08fc7bfe756d6d23ee28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 16/45] fix: keep the order of lists in a rewritten log

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 1ce9ab1..a32df42 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -308,7 +308,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 2803361dba84eb01fc1cea90e2cf47075d742a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 17/45] fix: find list elements of the second half in lists of
 several pages

---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..68e58c9 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From 57a67d7354c0bc188a8dedcc85c11f3d51416578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 18/45] fix: limit a list range to the list before allocating

---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 68e58c9..062345f 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -197,6 +197,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		stop = q.length + stop
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	if start < 0 || stop < 0 || start > stop || start >= q.length {
 		return nil
 	}
-- 
2.43.0


From 2dac56605d5f0c09ffe2e5ddb3e78b53b44ab86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 19/45] fix: limit a sorted set range to the set before
 allocating

---
 datastruct/skiplist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..3f7cdf6 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -230,6 +230,10 @@ func (s *Skiplist) GetElementByRank(rank int64) *SkiplistNode {
 // RangeByRank returns a slice of elements with rank between start and end.
 // Note that rank is 1-based because of the HEAD element.
 func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
+	if end > s.Length {
+		end = s.Length
+	}
+
 	if start < 1 || end < 1 || start > end {
 		return nil
 	}
-- 
2.43.0


From c061a1b8c39b7a125a280cb1f7725e5dad717bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 20/45] fix: delete the right elements by rank

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 3f7cdf6..8b81bdb 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -160,9 +160,9 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
+	rank := int64(0)
 
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From bdb75f6e518341ee3e22c1534092f4cb810b5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 21/45] fix: remove the old entry when the score of a member
 changes

---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..f3e6979 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,9 +27,9 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
 			z.skiplist.Insert(score, member)
+			element.Score = score
 		}
 
 		return false
-- 
2.43.0


From 4a5b309be2c006a173a035c1a86240d32d02f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 22/45] fix: report the wrong type when pushing to a key that
 is not a list

---
 server/commandlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..2ebc2a8 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -166,7 +166,7 @@ func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
 
 	list, ok := value.(*datastruct.Quicklist)
 	if !ok {
-		return nil, errNotExist
+		return nil, errWrongType
 	}
 
 	return list, nil
-- 
2.43.0


From e1e7b5d8d786a3eee8fa07bb66608294680ede05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 23/45] fix: do not write to expired collections

---
 server/commandhash.go | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandlist.go b/server/commandlist.go
index 2ebc2a8..fcec28c 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..de95785 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -203,6 +203,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..df51714 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -237,6 +237,11 @@ func zRemRangeByScoreCommand(client *Client) error {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From c89a15d7ff82c304622898f53d4191135e294490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 24/45] fix: do not set an expiry time on missing or expired
 keys

---
 server/commandkey.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..53cad5b 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -16,6 +16,15 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
+	if client.db.Dict.Find(key) == nil {
+		return client.addReplyInt(0)
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
@@ -31,6 +40,15 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
+	if client.db.Dict.Find(key) == nil {
+		return client.addReplyInt(0)
+	}
+
 	client.db.Expire.Set(key, expireInt*1000)
 	client.srv.dirty++
 
-- 
2.43.0


From 0eaee46cd3b20aaaf9feea2d920914db5e719a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 25/45] fix: report expired keys as missing in TTL

---
 server/commandkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index 53cad5b..7e8ad8f 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -58,6 +58,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
-- 
2.43.0


From ed404377f33f09c4c364fbcee9f05526466608e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 26/45] fix: treat a missing first key of SUNION as the empty
 set

---
 server/commandset.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index de95785..dc54743 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -177,16 +177,9 @@ func sInterCommand(client *Client) error {
 }
 
 func sUnionCommand(client *Client) error {
-	set, err := getSetIfExist(client, client.args[1])
-	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
-		}
+	set := datastruct.NewSet(&database.DictType{})
 
-		return client.addReplyError(err.Error())
-	}
-
-	for i := 2; i < len(client.args); i++ {
+	for i := 1; i < len(client.args); i++ {
 		set2, err := getSetIfExist(client, client.args[i])
 		if err != nil {
 			if errors.Is(err, errNotExist) {
-- 
2.43.0


From c41604fa86288c0148c33c94dc20822945e6b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 27/45] fix: keep line breaks in arguments out of single-line
 replies

---
 server/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 0e640f4..23f3f6f 100644
--- a/server/client.go
+++ b/server/client.go
@@ -24,6 +24,9 @@ const (
 	CommandTypeMultiBulk
 )
 
+// lineBreakReplacer removes line breaks from text that becomes part of a single-line reply.
+var lineBreakReplacer = strings.NewReplacer("\r", " ", "\n", " ")
+
 type Client struct {
 	srv           *Server
 	db            *database.Databse
@@ -84,7 +87,7 @@ func (c *Client) addReplyStringf(format string, args ...any) error {
 }
 
 func (c *Client) addReplySimpleString(str string) error {
-	return c.addReplyStringf("+%s\r\n", str)
+	return c.addReplyStringf("+%s\r\n", lineBreakReplacer.Replace(str))
 }
 
 func (c *Client) addReplyBulkString(str string) error {
@@ -96,7 +99,7 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
-	return c.addReplyStringf("-ERR %s\r\n", err)
+	return c.addReplyStringf("-ERR %s\r\n", lineBreakReplacer.Replace(err))
 }
 
 func (c *Client) addReplyErrorf(format string, args ...any) error {
-- 
2.43.0


From d48b608d4d4aed422b3b8f0fdd2dde1a3a357dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 28/45] fix: refuse BGREWRITEAOF when there is no append only
 file

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..0f0d385 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if !srv.aofEnable {
+		return client.addReplyError("append only file is disabled")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0


From ef833c525fd7215bb26a3aa5b5402d9ddf92c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 29/45] fix: never block in accept

---
 server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server.go b/server/server.go
index 58bc7f2..745278e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,11 @@ func (s *Server) Run() error {
 	}
 	defer listenFd.Close()
 
+	// the client may have given up before its connection is accepted
+	if err := listenFd.SetNonBlock(); err != nil {
+		return err
+	}
+
 	eventLoop, err := ae.NewEventLoop()
 	if err != nil {
 		return err
-- 
2.43.0


From 6d83494560c3239455ab52d2914914f22dcb20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 30/45] fix: check all scores of ZADD before changing anything

---
 server/commandzset.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index df51714..262a9bf 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -15,20 +16,28 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
-	zset, err := getZset(client, key)
-	if err != nil {
-		return client.addReplyError(err.Error())
-	}
-
-	var created int64
+	elements := make([]datastruct.ZsetElement, 0, len(client.args)/2)
 	for i := 2; i < len(client.args); i += 2 {
 		score, err := strconv.ParseFloat(client.args[i], 64)
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
 
-		member := client.args[i+1]
-		if zset.Add(score, member) {
+		if math.IsNaN(score) {
+			return client.addReplyErrorf("invalid score: %s", client.args[i])
+		}
+
+		elements = append(elements, datastruct.ZsetElement{Member: client.args[i+1], Score: score})
+	}
+
+	zset, err := getZset(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	var created int64
+	for _, element := range elements {
+		if zset.Add(element.Score, element.Member) {
 			created++
 		}
 
-- 
2.43.0


From 52f6f7a623976f269275cb0c5b0b7483cd8d4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 31/45] fix: log a change also if its reply cannot be sent

---
 server/command.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/command.go b/server/command.go
index 207fddb..1a768e6 100644
--- a/server/command.go
+++ b/server/command.go
@@ -129,14 +129,12 @@ func processCommand(client *Client) error {
 // call is the core of Metis execution of a command.
 func call(client *Client, cmd *command) error {
 	dirty := client.srv.dirty
-	if err := cmd.proc(client); err != nil {
-		return err
-	}
+	err := cmd.proc(client)
 	dirty = client.srv.dirty - dirty
 
 	if client.srv.aofEnable && dirty != 0 {
 		feedAppendOnlyFile(client.srv, cmd, client.db.ID, client.args)
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 9df4ad0571425e6478f06c5b0d1ac92f7dde01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 32/45] fix: log SPOP as the removal of the chosen member

---
 server/commandset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index dc54743..c89c5d7 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -71,6 +71,8 @@ func sPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	// the member was chosen at random, so log the removal of this member
+	client.args = []string{"srem", key, randomMember.(string)}
 
 	return client.addReplyBulkString(randomMember.(string))
 }
-- 
2.43.0


From 658d379dcd2ec37e37e446a17ae9df9812a76e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 33/45] fix: remove keys of collections that became empty

---
 server/command.go     |  8 ++++++++
 server/commandhash.go |  2 ++
 server/commandlist.go | 10 ++++++++--
 server/commandset.go  |  3 +++
 server/commandzset.go |  4 ++++
 5 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/server/command.go b/server/command.go
index 1a768e6..73b55ac 100644
--- a/server/command.go
+++ b/server/command.go
@@ -92,6 +92,14 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteIfEmpty removes the key of a collection that has lost its last element.
+func deleteIfEmpty(client *Client, key string, size int64) {
+	if size == 0 {
+		_ = client.db.Dict.Delete(key)
+		_ = client.db.Expire.Delete(key)
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandhash.go b/server/commandhash.go
index 8da466a..ab94df3 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -69,6 +69,8 @@ func hDelCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, hash.Size())
+
 	return client.addReplyInt(deleted)
 }
 
diff --git a/server/commandlist.go b/server/commandlist.go
index fcec28c..a6ab298 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -57,7 +57,10 @@ func lPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopFront().(string))
+	value := list.PopFront().(string)
+	deleteIfEmpty(client, key, int64(list.Len()))
+
+	return client.addReplyBulkString(value)
 }
 
 func rPopCommand(client *Client) error {
@@ -78,7 +81,10 @@ func rPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopBack().(string))
+	value := list.PopBack().(string)
+	deleteIfEmpty(client, key, int64(list.Len()))
+
+	return client.addReplyBulkString(value)
 }
 
 func lLenCommand(client *Client) error {
diff --git a/server/commandset.go b/server/commandset.go
index c89c5d7..00124d5 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -46,6 +46,8 @@ func sRemCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, set.Size())
+
 	return client.addReplyInt(deleted)
 }
 
@@ -73,6 +75,7 @@ func sPopCommand(client *Client) error {
 	client.srv.dirty++
 	// the member was chosen at random, so log the removal of this member
 	client.args = []string{"srem", key, randomMember.(string)}
+	deleteIfEmpty(client, key, set.Size())
 
 	return client.addReplyBulkString(randomMember.(string))
 }
diff --git a/server/commandzset.go b/server/commandzset.go
index 262a9bf..233e1cb 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -186,6 +186,8 @@ func zRemCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(deleted))
 }
 
@@ -213,6 +215,7 @@ func zRemRangeByRankCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByRank(start, stop)
 	client.srv.dirty += int64(len(deletedElements))
+	deleteIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
@@ -241,6 +244,7 @@ func zRemRangeByScoreCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByScore(min, max)
 	client.srv.dirty += int64(len(deletedElements))
+	deleteIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
-- 
2.43.0


From a8b4a9e9f01c66b5412c66281e8cc01262c499c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 34/45] fix: rewrite the log from a snapshot that is
 independent of the live data

---
 database/database.go    | 25 ++++++++++++++++++++++++-
 datastruct/quicklist.go | 12 ++++++++++++
 datastruct/set.go       |  5 +++++
 datastruct/zset.go      | 10 ++++++++++
 4 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/database/database.go b/database/database.go
index 3ef0058..081e204 100644
--- a/database/database.go
+++ b/database/database.go
@@ -20,8 +20,31 @@ func NewDatabase(id int) *Databse {
 
 func (db *Databse) DeepCopy() *Databse {
 	newDB := NewDatabase(db.ID)
-	newDB.Dict = db.Dict.DeepCopy()
+
+	iter := datastruct.NewDictIterator(db.Dict)
+	defer iter.Release()
+
+	for entry := iter.Next(); entry != nil; entry = iter.Next() {
+		newDB.Dict.Set(entry.Key, deepCopyValue(entry.Value))
+	}
+
 	newDB.Expire = db.Expire.DeepCopy()
 
 	return newDB
 }
+
+// deepCopyValue copies the value of a key, strings are immutable.
+func deepCopyValue(value any) any {
+	switch v := value.(type) {
+	case *datastruct.Quicklist:
+		return v.DeepCopy()
+	case *datastruct.Dict:
+		return v.DeepCopy()
+	case *datastruct.Set:
+		return v.DeepCopy()
+	case *datastruct.Zset:
+		return v.DeepCopy()
+	default:
+		return v
+	}
+}
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 062345f..7fe5e0a 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -231,6 +231,18 @@ func (q *Quicklist) Get(index int) any {
 	return iter.value()
 }
 
+// DeepCopy returns a list with the same elements that shares no memory with q.
+func (q *Quicklist) DeepCopy() *Quicklist {
+	list := NewQuicklist()
+
+	iter := NewQuicklistIterator(q)
+	for v := iter.Next(); v != nil; v = iter.Next() {
+		list.PushBack(v)
+	}
+
+	return list
+}
+
 func (q *Quicklist) Len() int {
 	return q.length
 }
diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..eeb4d41 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -20,6 +20,11 @@ func (s *Set) Size() int64 {
 	return s.dict.Size()
 }
 
+// DeepCopy returns a set with the same members that shares no memory with s.
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
+
 func (s *Set) Range() []any {
 	iter := NewDictIterator(s.dict)
 	defer iter.Release()
diff --git a/datastruct/zset.go b/datastruct/zset.go
index f3e6979..b297a35 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -139,6 +139,16 @@ func (z *Zset) RangeByScore(min, max float64, limit int64, reverse bool) []*Zset
 	return elements
 }
 
+// DeepCopy returns a zset with the same elements that shares no memory with z.
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // Size returns the number of elements in the zset.
 func (z *Zset) Size() int64 {
 	return z.skiplist.Length
-- 
2.43.0


From 1ba32e868fa6008406313d3cfc5817cf17cd50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 35/45] fix: complete the rewritten log before it atomically
 replaces the old one

---
 server/aof.go | 59 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index a32df42..5847a2c 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -236,7 +236,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// in the directory of the AOF file, because it will be renamed to it
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -376,44 +377,62 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
-
 	tmpAofFilename := <-srv.aofRewriteDoneCh
 	defer os.Remove(tmpAofFilename)
 
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
+	// everything in the AOF buffer is in the AOF rewrite buffer, too
+	flushAppendOnlyFile(srv)
+
+	if err := replaceAppendOnlyFile(srv, tmpAofFilename); err != nil {
+		log.Error("failed to replace append only file, keep the old one", zap.Error(err))
 	}
 
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	srv.aofRewriteBuf.Reset()
+}
+
+// replaceAppendOnlyFile completes the temp file and puts it in the place of the AOF file.
+// The AOF file is complete at any time. If an error occurs the old AOF file stays in use.
+func replaceAppendOnlyFile(srv *Server, tmpAofFilename string) (err error) {
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
-		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+		return errors.Wrap(err, "failed to open temp file")
 	}
 
-	//  append AOF rewrite buffer to AOF file
+	defer func() {
+		if err != nil {
+			aofFile.Close()
+		}
+	}()
+
+	// append AOF rewrite buffer to temp file
 	if srv.aofRewriteBuf.Len() > 0 {
 		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
-			log.Panic("failed to write to AOF file", zap.Error(err))
+			return errors.Wrap(err, "failed to write to temp file")
 		}
 	}
 
-	srv.aofRewriteBuf.Reset()
+	if err := aofFile.Sync(); err != nil {
+		return errors.Wrap(err, "failed to fsync temp file")
+	}
 
 	fileInfo, err := aofFile.Stat()
 	if err != nil {
-		log.Panic("failed to stat file", zap.Error(err))
+		return errors.Wrap(err, "failed to stat temp file")
+	}
+
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		return errors.Wrap(err, "failed to rename temp file")
+	}
+
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
 	}
 
 	srv.aofCurrentSize = uint(fileInfo.Size())
 	srv.aofRewriteBaseSize = srv.aofCurrentSize
 	srv.aofFile = aofFile
+	srv.aofLastFsyncTime = time.Now()
+	srv.aofUnsynced = false
 
-	aofFileSync(srv)
+	return nil
 }
-- 
2.43.0


From 21841a511a5f0fb2e24c40f1754495d61dbfaca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 36/45] fix: load a log whose last command is incomplete

---
 server/aof.go | 129 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 86 insertions(+), 43 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 5847a2c..a3a5d9b 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -136,76 +136,120 @@ func aofFileSync(srv *Server) {
 	}
 }
 
-// loadAppendOnlyFile replays the AOF file.
-func loadAppendOnlyFile(srv *Server) {
-	// readline is a helper function that reads a line from the AOF file.
-	readLine := func(reader *bufio.Reader) (string, error) {
+// readAppendOnlyCommand reads one command from the AOF file and returns its arguments and its size in the file.
+// It returns io.EOF at the end of the file and io.ErrUnexpectedEOF if the file ends within a command.
+func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
+	var size int64
+
+	// readLine is a helper function that reads a line from the AOF file.
+	readLine := func() (string, error) {
 		buf, err := reader.ReadBytes('\n')
+		size += int64(len(buf))
 		if err != nil {
+			if errors.Is(err, io.EOF) && size > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+
 			return "", err
 		}
 
 		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
-	aofFile, err := os.Open(srv.aofFilename)
+	// readLength is a helper function that reads a line with a length.
+	readLength := func(prefix byte) (int, error) {
+		line, err := readLine()
+		if err != nil {
+			return 0, err
+		}
+
+		if line == "" || line[0] != prefix {
+			return 0, errors.New("invalid aof file format")
+		}
+
+		length, err := strconv.Atoi(line[1:])
+		if err != nil {
+			return 0, errors.Wrap(err, "invalid aof file format")
+		}
+
+		if length < 0 {
+			return 0, errors.New("invalid aof file format")
+		}
+
+		return length, nil
+	}
+
+	argc, err := readLength('*')
 	if err != nil {
-		log.Fatal("failed to open aof file", zap.Error(err))
+		return nil, size, err
 	}
-	defer aofFile.Close()
 
-	fakeClient := NewClient(srv, -1)
-	defer fakeClient.free()
+	if argc == 0 {
+		return nil, size, errors.New("invalid aof file format")
+	}
 
-	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
-	for {
-		buf, err := readLine(reader)
+	args := make([]string, argc)
+	for i := 0; i < argc; i++ {
+		argLen, err := readLength('$')
 		if err != nil {
+			return nil, size, err
+		}
+
+		// with CRLF
+		arg := make([]byte, argLen+2)
+		if _, err := io.ReadFull(reader, arg); err != nil {
 			if errors.Is(err, io.EOF) {
-				break
+				err = io.ErrUnexpectedEOF
 			}
 
-			log.Panic("failed to read aof file", zap.Error(err))
+			return nil, size, err
 		}
 
-		if buf[0] != '*' {
-			log.Panic("invalid aof file format")
-		}
+		size += int64(len(arg))
+		args[i] = byteutils.B2S(arg[:argLen])
+	}
 
-		argc, err := strconv.Atoi(buf[1:])
-		if err != nil {
-			log.Panic("invalid aof file format", zap.Error(err))
-		}
+	return args, size, nil
+}
 
-		args := make([]string, argc)
-		for i := 0; i < argc; i++ {
-			buf, err = readLine(reader)
-			if err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+// loadAppendOnlyFile replays the AOF file.
+func loadAppendOnlyFile(srv *Server) {
+	aofFile, err := os.Open(srv.aofFilename)
+	if err != nil {
+		log.Fatal("failed to open aof file", zap.Error(err))
+	}
+	defer aofFile.Close()
 
-			if buf[0] != '$' {
-				log.Panic("invalid aof file format")
-			}
+	fakeClient := NewClient(srv, -1)
+	defer fakeClient.free()
 
-			argLen, err := strconv.Atoi(buf[1:])
-			if err != nil {
-				log.Panic("invalid aof file format", zap.Error(err))
-			}
+	var validUpTo int64
+	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
+	for {
+		args, size, err := readAppendOnlyCommand(reader)
+		if errors.Is(err, io.EOF) {
+			break
+		}
 
-			arg := make([]byte, argLen)
-			if _, err := io.ReadFull(reader, arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+		if errors.Is(err, io.ErrUnexpectedEOF) {
+			// the server was stopped while it was writing the last command
+			log.Warn("truncate incomplete command at the end of aof file", zap.Int64("size", validUpTo))
 
-			// discard CRLF
-			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+			if err := os.Truncate(srv.aofFilename, validUpTo); err != nil {
+				log.Panic("failed to truncate aof file", zap.Error(err))
 			}
 
-			args[i] = byteutils.B2S(arg)
+			srv.aofCurrentSize = uint(validUpTo)
+
+			break
 		}
 
+		if err != nil {
+			log.Panic("failed to read aof file", zap.Error(err))
+		}
+
+		validUpTo += size
+
 		cmd := lookupCommand(strings.ToLower(args[0]))
 		if cmd == nil {
 			log.Error("unknown command", zap.String("command", args[0]))
@@ -215,7 +259,6 @@ func loadAppendOnlyFile(srv *Server) {
 		fakeClient.args = args
 		_ = cmd.proc(fakeClient)
 	}
-
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From 589955e564dd77bac953e4e1682ff3fcb18cdeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 37/45] fix: refuse expire times that cannot be represented in
 milliseconds

---
 server/commandkey.go    | 23 +++++++++++++++++++++--
 server/commandstring.go |  3 +--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index 7e8ad8f..3c4a5fc 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,17 +1,36 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
+	"github.com/pkg/errors"
 )
 
+// maxExpire is the limit of expire times in seconds, so that they can be converted to milliseconds.
+const maxExpire = math.MaxInt64 / 1000 / 4
+
+// parseExpire parses an expire time in seconds.
+func parseExpire(arg string, max int64) (int64, error) {
+	expireInt, err := strconv.ParseInt(arg, 10, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if expireInt > max || expireInt < -max {
+		return 0, errors.New("value out of range")
+	}
+
+	return expireInt, nil
+}
+
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], maxExpire)
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -35,7 +54,7 @@ func expireCommand(client *Client) error {
 func expireAtCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], 2*maxExpire)
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..1723bbc 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,7 +1,6 @@
 package server
 
 import (
-	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -18,7 +17,7 @@ func setCommand(client *Client) error {
 
 func setExCommand(client *Client) error {
 	key, value := client.args[1], client.args[3]
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], maxExpire)
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
-- 
2.43.0


From 8969f7a2fd869da43d57e3919ee3c7ccece34a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 38/45] fix: stop the server from its event loop

---
 server/server.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/server/server.go b/server/server.go
index 745278e..ac86935 100644
--- a/server/server.go
+++ b/server/server.go
@@ -42,6 +42,8 @@ type Server struct {
 	dbs             []*database.Databse
 	requirePassword string
 	dirty           int64 // changes to DB from the last save
+	stopping        atomic.Bool
+	doneCh          chan struct{} // closed when Run has returned
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
@@ -74,6 +76,7 @@ func NewServer(config *config.Config) *Server {
 		port:              config.Port,
 		clients:           make(map[socket.FD]*Client),
 		requirePassword:   config.RequirePassword,
+		doneCh:            make(chan struct{}),
 		aofEnable:         config.AofEnable,
 		aofFilename:       config.AofFilename,
 		aofFsync:          config.AofFsync,
@@ -109,6 +112,8 @@ func NewServer(config *config.Config) *Server {
 }
 
 func (s *Server) Run() error {
+	defer close(s.doneCh)
+
 	listenFd, err := CreateTCPServer(s.host, s.port)
 	if err != nil {
 		log.Fatal("failed to create tcp server", zap.Error(err))
@@ -142,17 +147,21 @@ func (s *Server) Run() error {
 		loadAppendOnlyFile(s)
 	}
 
-	return eventLoop.Main()
-}
-
-func (s *Server) Stop() {
-	s.eventLoop.Stop()
-	s.fd.Close()
-	close(s.aofRewriteDoneCh)
+	err = eventLoop.Main()
 
 	if s.aofFile != nil {
+		// write what was executed in the last iteration of the event loop
+		flushAppendOnlyFile(s)
 		s.aofFile.Close()
 	}
+
+	return err
+}
+
+// Stop asks the event loop to stop and waits until Run has returned.
+func (s *Server) Stop() {
+	s.stopping.Store(true)
+	<-s.doneCh
 }
 
 func acceptTCPHandler(el *ae.EventLoop, fd socket.FD, extra any) {
@@ -259,6 +268,10 @@ func sendReplayToClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 func serverCron(el *ae.EventLoop, id int64, clientData any) {
 	srv := clientData.(*Server)
 
+	if srv.stopping.Load() {
+		el.Stop()
+	}
+
 	databasesCron(srv)
 
 	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) &&
-- 
2.43.0


From 5a5064aef67ed873f0175f44d1a040225ba71e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 39/45] fix: log the removal of expired keys and expire nothing
 on replay

---
 server/aof.go        | 10 ++++++++++
 server/command.go    |  7 +++++++
 server/commandkey.go | 18 ++++++++++++++++++
 server/server.go     |  2 ++
 4 files changed, 37 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index a3a5d9b..4a274d8 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -56,6 +56,13 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 	}
 }
 
+// propagateExpire feeds the AOF file with the removal of an expired key.
+func propagateExpire(srv *Server, dbID int, key string) {
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, dbID, []string{"del", key})
+	}
+}
+
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
 func catAppendOnlyExpireCommand(args []string) string {
@@ -223,6 +230,9 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	srv.loading = true
+	defer func() { srv.loading = false }()
+
 	var validUpTo int64
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 	for {
diff --git a/server/command.go b/server/command.go
index 73b55ac..5b82310 100644
--- a/server/command.go
+++ b/server/command.go
@@ -26,6 +26,7 @@ var commandTable = []command{
 	// server
 	{"bgrewriteaof", bgRewriteAofCommand, 1},
 	// key
+	{"del", delCommand, -2},
 	{"expire", expireCommand, 3},
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
@@ -74,6 +75,11 @@ var commandTable = []command{
 }
 
 func expireIfNeeded(client *Client, key string) (bool, error) {
+	// the log says when a key was removed
+	if client.srv.loading {
+		return false, nil
+	}
+
 	expireObj := client.db.Expire.Find(key)
 	if expireObj != nil {
 		when, ok := expireObj.Value.(int64)
@@ -84,6 +90,7 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 		if when < time.Now().UnixMilli() {
 			_ = client.db.Dict.Delete(key)
 			_ = client.db.Expire.Delete(key)
+			propagateExpire(client.srv, client.db.ID, key)
 
 			return true, nil
 		}
diff --git a/server/commandkey.go b/server/commandkey.go
index 3c4a5fc..1abee5f 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -27,6 +27,24 @@ func parseExpire(arg string, max int64) (int64, error) {
 	return expireInt, nil
 }
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		// check if key expired
+		if _, err := expireIfNeeded(client, key); err != nil {
+			return client.addReplyErrorf("expireIfNeeded error: %v", err)
+		}
+
+		_ = client.db.Expire.Delete(key)
+		if client.db.Dict.Delete(key) == nil {
+			deleted++
+			client.srv.dirty++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
diff --git a/server/server.go b/server/server.go
index ac86935..cf5a8b9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -42,6 +42,7 @@ type Server struct {
 	dbs             []*database.Databse
 	requirePassword string
 	dirty           int64 // changes to DB from the last save
+	loading         bool  // the AOF file is being replayed
 	stopping        atomic.Bool
 	doneCh          chan struct{} // closed when Run has returned
 
@@ -311,6 +312,7 @@ func databasesCron(srv *Server) {
 			if when < time.Now().UnixMilli() {
 				db.Dict.Delete(entry.Key)
 				db.Expire.Delete(entry.Key)
+				propagateExpire(srv, db.ID, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From 25635a82a1fec91b2fc8d027ff1fc3f44c155e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 40/45] fix: accept empty arguments and lines

---
 server/aof.go    |  5 ++---
 server/client.go | 11 ++++++++++-
 server/resp.go   |  7 +++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 4a274d8..0aa9119 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/config"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -160,7 +159,7 @@ func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
 			return "", err
 		}
 
-		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
+		return bytesToString(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
 	// readLength is a helper function that reads a line with a length.
@@ -213,7 +212,7 @@ func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
 		}
 
 		size += int64(len(arg))
-		args[i] = byteutils.B2S(arg[:argLen])
+		args[i] = bytesToString(arg[:argLen])
 	}
 
 	return args, size, nil
diff --git a/server/client.go b/server/client.go
index 23f3f6f..58929cb 100644
--- a/server/client.go
+++ b/server/client.go
@@ -53,12 +53,21 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 	}
 }
 
+// bytesToString converts a byte slice, which may be empty, to a string without memory allocation.
+func bytesToString(b []byte) string {
+	if len(b) == 0 {
+		return ""
+	}
+
+	return byteutils.B2S(b)
+}
+
 func (c *Client) getCRLFIndexFromQueryBuffer() int {
 	return bytes.Index(c.queryBuf[:c.queryLen], []byte("\r\n"))
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(bytesToString(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
diff --git a/server/resp.go b/server/resp.go
index 2a24235..d341927 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -3,7 +3,6 @@ package server
 import (
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/pkg/errors"
 )
 
@@ -78,7 +77,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return true, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+	subs := strings.Split(bytesToString(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
@@ -120,7 +119,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	client.args = append(client.args, bytesToString(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
 	client.bulkLen = -1
@@ -195,7 +194,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args[len(client.args)-client.multiBulkLen] = bytesToString(client.queryBuf[:index])
 		client.bulkLen = -1
 		client.multiBulkLen--
 
-- 
2.43.0


From a2eaf19b1dda3b1c1b71029f38edb3ada885a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 41/45] fix: write the score before the member in a rewritten
 log

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 0aa9119..06fc983 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -411,7 +411,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From b88241adf0dc06370acbb858c04f6fa0322ca706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 42/45] fix: bind and connect to the configured address

---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From 5a124ece04bb085421aadb7f93e14e52b43b0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 43/45] fix: insert into the second half of a list at the
 requested position

---
 datastruct/quicklist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 7fe5e0a..3c6cbcc 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -118,10 +118,11 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
-	q.length++
-
 	iter := q.get(index)
 	page := iter.page()
+
+	q.length++
+
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
 		page = append(page[:iter.offset+1], page[iter.offset:]...)
-- 
2.43.0


From 42765bfbfca168279603d44cc6a624ee73bb8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 44/45] fix: releasing an iterator that was never started must
 not end another iteration

---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..c58f46a 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From 9531a016c9c3ef44b330bfdbd68e2684c8ace1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 45/45] fix: find the rank of the member with the empty name

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 8b81bdb..f0e4003 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -200,7 +200,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && member == x.Member {
 			return rank
 		}
 	}
-- 
2.43.0

