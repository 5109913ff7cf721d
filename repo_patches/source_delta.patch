From 20ea26b7309efc5cdb9ae38cf890c4651f2051cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 01/16] fix: complete all batches of a pipeline published after
 the client is closed

---
 memcache/sender.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..dbb9f6e 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -262,8 +262,15 @@ func (s *sender) sendToWriter() (closed bool) {
 
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
-	if closed {
-		cmd.setCompleted(ErrConnClosed)
+	if !closed {
+		return
+	}
+
+	// the remaining batches of the same pipeline will never be sent, they must be completed too
+	for current := cmd; current != nil; {
+		next := current.sibling // can not be accessed after completed
+		current.setCompleted(ErrConnClosed)
+		current = next
 	}
 }
 
-- 
2.43.0


From fed6a32f9f2752cd99bd566b642a8464451dee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 02/16] fix: waitForError returned a stale closed flag, causing
 a dial during Close

---
 memcache/sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index dbb9f6e..563c3ec 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -294,12 +294,12 @@ func (s *sender) readSentCommands(cmdList []*commandListData) int {
 
 func (s *sender) waitForError() (closed bool) {
 	s.connMut.Lock()
-	result := s.closed
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	closed = s.closed
 	s.connMut.Unlock()
-	return result
+	return closed
 }
 
 func (s *sender) resetNetConn(nc netconn.NetConn) {
-- 
2.43.0


From 48271b0c7d306a621e9aa47376f683026e3aa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/16] fix: do not hold connMut while waiting for space in the
 receive buffer

---
 memcache/sender.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 563c3ec..77b2ff9 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,15 +244,21 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// recv.push might block until the receiver makes some progress, and the receiver needs connMut
+	// when the connection is broken => must not be called while holding connMut
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 42aed8871272974c02c82a3ebe55a98d650a6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 04/16] fix: drop data received from the previous connection
 after a reconnect

---
 memcache/core.go   | 6 ++++++
 memcache/reader.go | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..4c791de 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -10,6 +10,7 @@ import (
 // coreConnection is the core data structure
 type coreConnection struct {
 	responseReader *responseReader
+	readerConn     *senderConnection // the connection that data of responseReader is from
 	sender         *sender
 
 	wg sync.WaitGroup
@@ -78,6 +79,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	if c.readerConn != current.conn {
+		// data left over from the previous connection must not be used for the new connection
+		c.readerConn = current.conn
+		c.responseReader.reset()
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..1b692fb 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -299,7 +299,9 @@ func (r *responseReader) hasError() error {
 }
 
 func (r *responseReader) reset() {
-	r.tmpData = r.tmpData[:]
+	r.tmpData = r.tmpData[:0]
+	r.currentBinary = nil
+	r.remainingData = nil
 	r.state = readerStateInit
 	r.lastErr = nil
 }
-- 
2.43.0


From 74426676be228f8acd1580254a2fd0f036b6478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 05/16] fix: endless loop of mget flag parsing when the cas
 flag has no number

---
 memcache/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..e5a0bfc 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -181,6 +181,9 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
+			if !isDigit(p.data[i+1]) {
+				return 0, ErrInvalidMGet
+			}
 			cas, nextIndex := findNumber(p.data, i+1)
 			resp.CAS = cas
 			i = nextIndex - 1
@@ -213,7 +216,7 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
-	_, index := findNumber(p.data, 3)
+	_, index := findNumber(p.data, 2)
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From 3343cb740c6eb1ddd47eb78a82008059e7d15769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 06/16] fix: parsing of error lines with an empty message and
 of short flush_all responses

---
 memcache/parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index e5a0bfc..ea8a3f6 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -249,13 +249,15 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	data := p.data[index : crlfIndex-2]
+	if len(data) > 0 && data[0] == ' ' {
+		data = data[1:]
+	}
 
 	p.skipData(crlfIndex)
 
@@ -428,6 +430,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From f8ecfe0234c0d012fc286e92181a12f02f9e12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 07/16] fix: panic when the data length of a VA response is too
 big

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index 1b692fb..4a78cee 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -45,6 +45,11 @@ func newResponseReader() *responseReader {
 
 var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
+var errInvalidDataLen = ErrBrokenPipe{reason: "data length after VA too big"}
+
+// maxResponseDataLen is the max length of a value in a response (max item size of memcached is 1GB)
+const maxResponseDataLen = 1 << 30
+
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
 func (r *responseReader) writeResponse(data []byte) {
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxResponseDataLen {
+				return r.setErrorAndReturn(errInvalidDataLen)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 3864dbaef68ac4423865b0c6a1d7c913c1d0eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 08/16] fix: MetaDumpAll returned nil when the connection is
 closed before END

---
 memcache/stats/stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..f877fb1 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -498,7 +499,11 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.EOF // connection closed before END
 }
 
 type statItem struct {
-- 
2.43.0


From 7d65602783f1a8cb67af60a7fa9f7311f58e6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 09/16] fix: password authentication handshake without deadline

---
 memcache/netconn/auth.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..4720586 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -51,6 +51,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
+		if timeout > 0 {
+			// the server might never reply or reply with fewer bytes than expected
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		_, err = conn.Write([]byte(msg))
 		if err != nil {
 			_ = conn.Close()
@@ -68,6 +76,13 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Time{}); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From a24a29c6c5e742e124fc5e0d934d098c4953f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 10/16] fix: discard the rest of the stats response after a
 parse error

---
 memcache/stats/parser.go | 12 ++++++++++++
 memcache/stats/stats.go  |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..b5c7557 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -67,6 +67,7 @@ func (p *statsParser) next() bool {
 	}
 
 	if len(fields) < 3 {
+		p.skipToEnd()
 		p.lastErr = NewError("missing stat fields")
 		return false
 	}
@@ -79,6 +80,17 @@ func (p *statsParser) next() bool {
 	return true
 }
 
+// skipToEnd discards the remaining lines of the current response,
+// otherwise they would be treated as the response of the next command
+func (p *statsParser) skipToEnd() {
+	for p.scanner.Scan() {
+		fields := strings.Fields(p.scanner.Text())
+		if len(fields) > 0 && fields[0] == "END" {
+			return
+		}
+	}
+}
+
 func (p *statsParser) getError() error {
 	return p.lastErr
 }
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index f877fb1..a3b73d5 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -99,6 +99,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -106,6 +107,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -213,6 +215,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -220,6 +223,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -227,6 +231,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.parser.skipToEnd()
 				return SlabsStats{}, err
 			}
 		}
@@ -395,6 +400,7 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.parser.skipToEnd()
 			return SlabItemsStats{}, err
 		}
 	}
@@ -495,6 +501,9 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
+			if strings.HasPrefix(line, "key=") { // otherwise is an error line without END
+				c.parser.skipToEnd()
+			}
 			return err
 		}
 		scanFunc(key)
-- 
2.43.0


From be7145d3af1711d460fc0efa07ac543853407744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 11/16] fix: do not reuse response data for the commands after
 an invalid response

---
 memcache/pipeline.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..e46f6b8 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for index, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +137,17 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+
+			_, invalidResponse := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+
+			if invalidResponse {
+				// the start of the next response is unknown
+				for _, remaining := range pipelineCommands[index+1:] {
+					remaining.err = cmd.err
+				}
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From c96fc4fea52a8c48601dab43cf339912bdae9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 12/16] fix: do not use left over data of a broken connection
 as responses of later commands

---
 memcache/core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 4c791de..5cb0cb5 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -84,6 +84,11 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 		c.readerConn = current.conn
 		c.responseReader.reset()
 	}
+	if err := current.conn.getLastErrorInternal(); err != nil {
+		// the command list might not be sent, data left over from this connection is not its response
+		inc.apply(c, current)
+		return err
+	}
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
-- 
2.43.0


From 24e453aa46e0eba600b3b3f13d4ee05c8cc0eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 13/16] fix: metadump passed the truncated last line of a
 broken connection to the callback

---
 memcache/stats/stats.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index a3b73d5..7e037b3 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"bytes"
 	"io"
 	"log"
 	"net/url"
@@ -62,6 +63,7 @@ func New(addr string, options ...Option) *Client {
 	}
 
 	scanner := bufio.NewScanner(nc.Reader)
+	scanner.Split(scanCompleteLines)
 
 	return &Client{
 		nc:      nc,
@@ -70,6 +72,15 @@ func New(addr string, options ...Option) *Client {
 	}
 }
 
+// scanCompleteLines is similar to bufio.ScanLines but without the last non-terminated line,
+// because that line is truncated by the closed connection or by the read error
+func scanCompleteLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if bytes.IndexByte(data, '\n') < 0 {
+		return 0, nil, nil
+	}
+	return bufio.ScanLines(data, atEOF)
+}
+
 // GeneralStats ...
 type GeneralStats struct {
 	PID    uint64
-- 
2.43.0


From 1ed15081a7fb506aebdb4cf7fdb9b75f5763499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 14/16] fix: Close returned before the sender goroutine was
 finished

---
 memcache/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..65fb6be 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -97,4 +97,5 @@ func (c *clientConn) shutdown() {
 func (c *clientConn) waitCloseCompleted() {
 	c.wg.Wait()
 	c.core.waitReceiverShutdown()
+	c.core.sender.waitForClosingSendJob()
 }
-- 
2.43.0


From ed1708ee6d6563de5740d53cd2f86080d56a8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 15/16] fix: a value that is not followed by CR LF is an
 invalid response

---
 memcache/reader.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/memcache/reader.go b/memcache/reader.go
index 4a78cee..9f9e268 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -50,6 +50,8 @@ var errInvalidDataLen = ErrBrokenPipe{reason: "data length after VA too big"}
 // maxResponseDataLen is the max length of a value in a response (max item size of memcached is 1GB)
 const maxResponseDataLen = 1 << 30
 
+var errNoCRLFAfterData = ErrBrokenPipe{reason: "no CR LF after data"}
+
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
 func (r *responseReader) writeResponse(data []byte) {
@@ -83,6 +85,9 @@ func (r *responseReader) simpleContinue(data []byte) []byte {
 var respVAWithSpace = []byte("VA ")
 var respVAWithSpaceLen = len(respVAWithSpace)
 
+const respLineEnd = "\r\n"
+const respLineEndLen = uint64(len(respLineEnd))
+
 func (r *responseReader) handleStartWithV(data []byte) []byte {
 	if len(data) >= respVAWithSpaceLen+1 {
 		ch := data[respVAWithSpaceLen]
@@ -216,11 +221,15 @@ func (r *responseReader) handleBinaryData(data []byte) []byte {
 		n = r.dataLen
 	}
 
-	r.dataLen -= n
+	valueLen := copy(r.currentBinary[r.currentIndex:], data)
+	r.currentIndex += valueLen
+	r.dataLen -= uint64(valueLen)
 
-	if r.currentIndex < len(r.currentBinary) {
-		copy(r.currentBinary[r.currentIndex:], data)
-		r.currentIndex += int(n)
+	for _, c := range data[valueLen:n] {
+		if c != respLineEnd[respLineEndLen-r.dataLen] {
+			return r.setErrorAndReturn(errNoCRLFAfterData)
+		}
+		r.dataLen--
 	}
 
 	if r.dataLen == 0 {
-- 
2.43.0


From 0716e0a18e5554e8ec68d605675dde7a733f19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:29 +0000
Subject: [PATCH 16/16] fix: responses read together with an error of the
 connection were dropped

---
 memcache/sender.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/sender.go b/memcache/sender.go
index 77b2ff9..4e4634f 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -95,6 +95,10 @@ func (c *senderConnection) readData(data []byte) (int, error) {
 	}
 
 	n, err := c.reader.Read(data)
+	if n > 0 {
+		// data might be returned together with an error, which is returned again by the next Read
+		return n, nil
+	}
 	if err != nil {
 		return n, c.setLastErrorAndClose(err)
 	}
-- 
2.43.0

