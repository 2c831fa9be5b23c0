From b587869bbe6efff5d8cd2fccfd2418c58f0c4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:21 +0000
Subject: [PATCH 01/10] fix: FromJSON served an empty body

copy() into a nil slice copies nothing, so every non-pretty JSON body was
empty.
---
 body/body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/body.go b/body/body.go
index 1c84c41..141725f 100644
--- a/body/body.go
+++ b/body/body.go
@@ -202,7 +202,7 @@ func fromJSONImpl(v interface{}, isPretty bool) Body {
 			}
 		}
 	} else {
-		copy(dst, src)
+		dst = append(dst, src...)
 	}
 
 	return FromBytes(dst)
-- 
2.43.0


From cd64ea72ff1b7079ae14d6ba3660f1d485087549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:21 +0000
Subject: [PATCH 02/10] fix: WriteTo on an empty body returned io.EOF

io.WriterTo reports success as a nil error, and io.Copy passes whatever
WriteTo returns on to its caller, so serving an empty body failed with EOF.
---
 body/empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body/empty.go b/body/empty.go
index 94e752b..822e88e 100644
--- a/body/empty.go
+++ b/body/empty.go
@@ -96,7 +96,7 @@ func (body *emptyBody) WriteTo(w io.Writer) (int64, error) {
 		return 0, fs.ErrClosed
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 func (body *emptyBody) Copy() (Body, error) {
-- 
2.43.0


From f1ef4a12ff4c36c8a58a0a35b5f6a6b457cc1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:21 +0000
Subject: [PATCH 03/10] fix: a failed WriteTo dropped the bytes that were not
 written

After a failing or short write the body claimed EOF while BytesRemaining was
still positive, and a short write was not reported at all.
---
 body/bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/body/bytes.go b/body/bytes.go
index d7b14f8..0eec2d6 100644
--- a/body/bytes.go
+++ b/body/bytes.go
@@ -159,8 +159,11 @@ func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
 	n, err := w.Write(body.data[i:j])
 	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
 	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
+	if err == nil && n < avail {
+		err = io.ErrShortWrite
+	}
 	body.offset += int(n)
-	body.eof = true
+	body.eof = (n == avail)
 	return int64(n), err
 }
 
-- 
2.43.0


From db23f387045d019ee23827bb1fe0db300ffb277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 04/10] fix: BytesRemaining of a seekable body raced and could
 go negative

It read the length shared with the other copies without the lock, and did not
allow for that length having shrunk below this copy's own offset.
---
 body/seeker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body/seeker.go b/body/seeker.go
index 34ac623..79bea2e 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -81,7 +81,12 @@ func (body *seekerBody) BytesRemaining() int64 {
 		return 0
 	}
 
-	return (body.common.length - body.offset)
+	length := body.common.BytesRemaining()
+	offset := body.offset
+	if offset >= length {
+		return 0
+	}
+	return (length - offset)
 }
 
 func (body *seekerBody) Read(p []byte) (int, error) {
-- 
2.43.0


From 0c18a7a90b4d67c44040854dec654d1921f684a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 05/10] fix: a read error in one copy truncated all other
 copies

Only io.EOF says where the source ends.  Any other error used to shorten the
length shared by all copies, which then reported a clean EOF at that offset.
---
 body/readerat.go | 5 ++---
 body/seeker.go   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/body/readerat.go b/body/readerat.go
index 41e392a..38fcd82 100644
--- a/body/readerat.go
+++ b/body/readerat.go
@@ -131,9 +131,8 @@ func (body *readerAtBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
diff --git a/body/seeker.go b/body/seeker.go
index 79bea2e..cf1ed43 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -136,9 +136,8 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if err != nil {
 		body.err = err
 
-		length = offset
-		if length < common.length {
-			common.length = length
+		if err == io.EOF && offset < common.length {
+			common.length = offset
 		}
 	}
 
-- 
2.43.0


From e7befaf46d41ed932881a1478a96592af0fab966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 06/10] fix: a short read from a seekable source ended the body
 early

When the caller's buffer reached past the end, a short read from the source was
taken for the end of the body, losing the remaining bytes for every copy; and
ReadAt returned short counts without an error.
---
 body/seeker.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/body/seeker.go b/body/seeker.go
index cf1ed43..a2094df 100644
--- a/body/seeker.go
+++ b/body/seeker.go
@@ -65,6 +65,18 @@ func (common *seekerCommon) readAt(p []byte, offset int64) (int, error) {
 	return n, err
 }
 
+// readFullAt is like readAt, but as io.ReaderAt requires it returns fewer than
+// len(p) bytes only with an error.
+func (common *seekerCommon) readFullAt(p []byte, offset int64) (int, error) {
+	n, err := common.readAt(p, offset)
+	for err == nil && n < len(p) {
+		var m int
+		m, err = common.readAt(p[n:], offset+int64(n))
+		n += m
+	}
+	return n, err
+}
+
 type seekerBody struct {
 	mu     sync.Mutex
 	common *seekerCommon
@@ -126,7 +138,7 @@ func (body *seekerBody) Read(p []byte) (int, error) {
 	if avail > 0 {
 		n, err = common.readAt(p[0:x], offset)
 	}
-	if eof && err == nil {
+	if eof && err == nil && int64(n) == x {
 		err = io.EOF
 	}
 
@@ -231,7 +243,7 @@ func (body *seekerBody) ReadAt(p []byte, offset int64) (int, error) {
 		err error
 	)
 	if avail > 0 {
-		n, err = common.readAt(p[0:x], offset)
+		n, err = common.readFullAt(p[0:x], offset)
 	}
 	if eof && err == nil {
 		err = io.EOF
-- 
2.43.0


From 8f8f664071ba53e99b1686c28b8539e9b5917a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 07/10] fix: Serve leaked the body when a push failed or the
 writer panicked

---
 response/response.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/response/response.go b/response/response.go
index 9edc07f..2d0e07f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -74,7 +74,14 @@ func (resp *Response) Copy() (*Response, error) {
 }
 
 // Serve serves the Response via the given ResponseWriter, consuming its Body.
-func (resp *Response) Serve(w http.ResponseWriter) error {
+func (resp *Response) Serve(w http.ResponseWriter) (err error) {
+	defer func() {
+		err2 := resp.body.Close()
+		if err == nil {
+			err = err2
+		}
+	}()
+
 	if x, ok := w.(http.Pusher); ok {
 		vlist := resp.hdrs[headerPush]
 		for _, url := range vlist {
@@ -94,12 +101,6 @@ func (resp *Response) Serve(w http.ResponseWriter) error {
 
 	w.WriteHeader(resp.code)
 
-	_, err := io.Copy(w, resp.body)
-
-	err2 := resp.body.Close()
-	if err == nil {
-		err = err2
-	}
-
+	_, err = io.Copy(w, resp.body)
 	return err
 }
-- 
2.43.0


From 8e2241883da5ddfc14fc0f9da4aef5fdfec5ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 08/10] fix: Serve shared its header values with the
 ResponseWriter

A ResponseWriter that adds to a header could write into the slice that the
Response and all of its copies share.
---
 response/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 2d0e07f..fdf5d7e 100644
--- a/response/response.go
+++ b/response/response.go
@@ -95,7 +95,7 @@ func (resp *Response) Serve(w http.ResponseWriter) (err error) {
 	h := w.Header()
 	for k, vlist := range resp.hdrs {
 		if k != headerPush {
-			h[k] = vlist
+			h[k] = copyStrings(vlist)
 		}
 	}
 
-- 
2.43.0


From 562ddbeaf9171429747deba91dbcf968c65e2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 09/10] fix: SawError missed write errors reported through
 ReadFrom

---
 response/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/writer.go b/response/writer.go
index a4241e4..3570701 100644
--- a/response/writer.go
+++ b/response/writer.go
@@ -148,6 +148,9 @@ func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
 	assert.Assertf(n >= 0, "%d >= 0", n)
 	w.bytes += n
+	if err != nil {
+		w.sawError = true
+	}
 	return n, err
 }
 
-- 
2.43.0


From 4d9ec4a3aacce318ea735d053c1442e2a6b1fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 10/10] fix: failed requests were counted under code "0"
 instead of "500"

The metric label was computed before the 500 status was sent.
---
 handler/adaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler/adaptor.go b/handler/adaptor.go
index cd3ae56..005c35e 100644
--- a/handler/adaptor.go
+++ b/handler/adaptor.go
@@ -79,6 +79,7 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	defer func() {
 		panicValue := recover()
+		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		code := strconv.Itoa(ww.Status())
 		elapsedDuration := time.Since(startTime)
 		elapsed := float64(elapsedDuration) / float64(time.Second)
@@ -86,7 +87,6 @@ func (a Adaptor) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		sendBytes := float64(ww.BytesWritten())
 		labels := prometheus.Labels{"code": code}
 
-		ww.MaybeWriteHeader(http.StatusInternalServerError)
 		if panicValue != nil {
 			PromPanicsTotal.Inc()
 		}
-- 
2.43.0

