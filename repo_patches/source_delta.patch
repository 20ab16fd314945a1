From 2f2917f94b2d7a121c754a865fc5a607fab4792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 01/24] fix: regexp patterns no longer bind URL params while
 merely matching

Match must not modify the context: a regexp route whose pattern matched but
whose method did not left its bindings in the URLParams of whichever route
(or not-found handler) was eventually chosen.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 6c508f53b0d1aa60ddc58cc914fa7bcf497e8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 02/24] fix: anchor every alternative of an unanchored regexp
 pattern

`\\A` was prepended to the raw expression, which anchors only the first
alternative: /foo|/bar matched /x/bar.
---
 web/regexp_pattern.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..2c146ca 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -78,6 +78,7 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 			"This route might behave unexpectedly.", re)
 		return re, ""
 	}
+	anchorable := sRe.String()
 	sRe = sRe.Simplify()
 	p, err := syntax.Compile(sRe)
 	if err != nil {
@@ -86,8 +87,10 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 		return re, ""
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
-		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// The group is important: an anchor binds more tightly than an
+		// alternation does. We use the parser's rendition of the regexp
+		// because the raw one might contain an unterminated \Q.
+		newRe, err := regexp.Compile(`\A(?:` + anchorable + `)`)
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 8226eed75cb20ca9fa2b6e6d74ad4858eed56610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 03/24] fix: report the registered *regexp.Regexp as a match's
 raw pattern

For an expression without a leading anchor, RawPattern and Raw returned the
internal left-anchored copy instead of the value the user registered.
---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 2c146ca..cbe65b3 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -10,6 +10,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -49,7 +50,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -133,6 +134,7 @@ Sadness:
 }
 
 func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
+	raw := re
 	re, prefix := sketchOnRegex(re)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
@@ -145,6 +147,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 17bfc46f489126447f5abe09eec47ad50fc365d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 04/24] fix: the writer proxy only records a final status that
 was really sent

An informational (1xx) header made the proxy swallow the final one, and a
code the underlying writer refuses (by panicking) was recorded as sent, so
that the 500 of a recovering middleware was swallowed too.
---
 web/mutil/writer_proxy_go1_8.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..b4a43b2 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -54,10 +54,15 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
-	if !b.wroteHeader {
+	if b.wroteHeader {
+		return
+	}
+	b.ResponseWriter.WriteHeader(code)
+	// Informational headers may be followed by any number of others, and
+	// are not the status of the response.
+	if code >= 200 || code == http.StatusSwitchingProtocols {
 		b.code = code
 		b.wroteHeader = true
-		b.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From 3138170499f3f225e9712c1d47ccc521ef24b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 05/24] fix: flushing through the writer proxy sends (and
 records) the header

Flush sends an implicit 200, but the proxy kept reporting status 0 and let a
later WriteHeader change the reported status.
---
 web/mutil/writer_proxy_go1_8.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index b4a43b2..c56647e 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -116,6 +116,7 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 
 func (f *fancyWriter) Flush() {
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
 	fl.Flush()
 }
 
-- 
2.43.0


From a55451b2aa3d74cc2ae4b8cafd557b1b4df7cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 06/24] fix: account for bytes copied through the writer proxy
 with ReadFrom

BytesWritten did not include them, and copying an empty source sent a 200
that the writer on its own would not have sent.
---
 web/mutil/writer_proxy_go1_8.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index c56647e..4a85101 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -130,8 +130,15 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 		return io.Copy(&f.basicWriter, r)
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
-	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	// An empty or failing source writes nothing, and so does not cause a
+	// header to be sent either.
+	if n > 0 && !f.basicWriter.wroteHeader {
+		f.basicWriter.code = http.StatusOK
+		f.basicWriter.wroteHeader = true
+	}
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 944817579c13528e1693dd92ebde52a51a98cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 07/24] fix: Push on a writer proxy without push support is an
 error, not a panic

HTTP/1.1 writers get a proxy with a Push method but are not Pushers.
---
 web/mutil/writer_proxy_go1_8.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 4a85101..a949f23 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -111,7 +111,11 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	p, ok := f.basicWriter.ResponseWriter.(http.Pusher)
+	if !ok {
+		return http.ErrNotSupported
+	}
+	return p.Push(target, opts)
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From d228d127b6781bae940bc53d6f848e97b5c03a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 08/24] fix: the writer proxy keeps the flusher and pusher of
 HTTP/2 writers

Writers that cannot be hijacked (HTTP/2, httptest) were wrapped in a proxy
that could not flush either; before go1.8 they could.
---
 web/mutil/writer_proxy_go1_8.go | 36 ++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index a949f23..df83b01 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -40,6 +40,9 @@ func WrapWriter(w http.ResponseWriter) WriterProxy {
 	if fl && hj && rf {
 		return &fancyWriter{bw}
 	}
+	if fl {
+		return &flushWriter{bw}
+	}
 	return &bw
 }
 
@@ -102,6 +105,14 @@ func (b *basicWriter) Unwrap() http.ResponseWriter {
 	return b.ResponseWriter
 }
 
+func (b *basicWriter) push(target string, opts *http.PushOptions) error {
+	p, ok := b.ResponseWriter.(http.Pusher)
+	if !ok {
+		return http.ErrNotSupported
+	}
+	return p.Push(target, opts)
+}
+
 // fancyWriter is a writer that additionally satisfies http.Pusher,
 // http.Flusher, http.Hijacker, and io.ReaderFrom. It exists for the common case
 // of wrapping the http.ResponseWriter that package http gives you, in order to
@@ -111,11 +122,7 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	p, ok := f.basicWriter.ResponseWriter.(http.Pusher)
-	if !ok {
-		return http.ErrNotSupported
-	}
-	return p.Push(target, opts)
+	return f.basicWriter.push(target, opts)
 }
 
 func (f *fancyWriter) Flush() {
@@ -145,9 +152,28 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	return n, err
 }
 
+// flushWriter is a writer that additionally satisfies http.Flusher and
+// http.Pusher, like the http.ResponseWriter that package http gives you for
+// HTTP/2 requests.
+type flushWriter struct {
+	basicWriter
+}
+
+func (f *flushWriter) Push(target string, opts *http.PushOptions) error {
+	return f.basicWriter.push(target, opts)
+}
+
+func (f *flushWriter) Flush() {
+	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
+	fl.Flush()
+}
+
 var (
 	_ http.Pusher   = &fancyWriter{}
 	_ http.Flusher  = &fancyWriter{}
 	_ http.Hijacker = &fancyWriter{}
 	_ io.ReaderFrom = &fancyWriter{}
+	_ http.Pusher   = &flushWriter{}
+	_ http.Flusher  = &flushWriter{}
 )
-- 
2.43.0


From 8b96e1e67dc6de29aa03656132440aa5c4e1df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/24] fix: an informational header does not disable
 AutomaticOptions

A not-found handler that sent one (103, say) before its 404 had the 404 passed
through.
---
 web/middleware/options.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..ef6fc5a 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -47,7 +47,10 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 			p.state = aosProxying
 			break
 		}
-		p.state = aosHeaderWritten
+		// Informational headers do not settle what the final one is.
+		if code >= 200 || code == http.StatusSwitchingProtocols {
+			p.state = aosHeaderWritten
+		}
 		fallthrough
 	default:
 		p.w.WriteHeader(code)
-- 
2.43.0


From c9810c0fad3852185da401765a7a21ff5d6ec49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/24] fix: drop the Content-Length of a suppressed OPTIONS
 404 body

A not-found handler that sets Content-Length made the automatic 200 announce a
body that never comes, and the client fail with an unexpected EOF.
---
 web/middleware/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index ef6fc5a..1582b93 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -59,6 +59,8 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 
 	methods = addMethod(methods, "OPTIONS")
 	p.w.Header().Set("Allow", strings.Join(methods, ", "))
+	// It is the length of the body we are about to suppress.
+	p.w.Header().Del("Content-Length")
 	p.w.WriteHeader(http.StatusOK)
 }
 
-- 
2.43.0


From eefffc69e8113419fb3876264344a837287f12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 11/24] fix: RealIP takes the first X-Forwarded-For entry
 whatever the spacing

Only ", " was recognised as a separator: "1.2.3.4,5.6.7.8" was taken as one
address.
---
 web/middleware/realip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/middleware/realip.go b/web/middleware/realip.go
index ae5599f..3323deb 100644
--- a/web/middleware/realip.go
+++ b/web/middleware/realip.go
@@ -38,11 +38,11 @@ func realIP(r *http.Request) string {
 	var ip string
 
 	if xff := r.Header.Get(xForwardedFor); xff != "" {
-		i := strings.Index(xff, ", ")
+		i := strings.Index(xff, ",")
 		if i == -1 {
 			i = len(xff)
 		}
-		ip = xff[:i]
+		ip = strings.TrimSpace(xff[:i])
 	} else if xrip := r.Header.Get(xRealIP); xrip != "" {
 		ip = xrip
 	}
-- 
2.43.0


From b4ff86d6bbf6c57a6638a64671668b2e3d2fd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 12/24] fix: disowning a connection that is already closed is
 an error

It was counted as gone a second time, which let a drain return early or
panicked with a negative WaitGroup counter (a hijack racing a forced shutdown,
say).
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From e6d02c001ca2848f7858aad052eeba11c71f02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 13/24] fix: accepting a connection while draining no longer
 crashes the drain

The refused connection was counted in and out of the WaitGroup the drain is
waiting for, which panics ("WaitGroup is reused before previous Wait has
returned") when the wait is just ending.
---
 graceful/listener/conn.go  | 3 +--
 graceful/listener/shard.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..0c9b88a 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,8 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..8186d4d 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,9 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// Under the lock, and never once we're draining: the WaitGroup may not
+	// be reused while someone is waiting for it.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From d6a1e504c8f7edad2e7be39829f4eba8612e654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 14/24] fix: a forced drain leaves connections disowned
 meanwhile alone

It collects the connections first and closes them one by one afterwards, and
Close on a connection disowned in between closes it for its new owner.
---
 graceful/listener/conn.go  | 16 ++++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 0c9b88a..476f3bd 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -77,6 +77,22 @@ func (c *conn) Close() error {
 	return c.Conn.Close()
 }
 
+// closeIfManaged is what a forced drain uses: unlike Close, it leaves
+// connections that were disowned in the meantime alone.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 func (c *conn) SetReadDeadline(t time.Time) error {
 	c.mu.Lock()
 	if !c.disowned && c.mode == Deadline {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index 8186d4d..f177c8a 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -89,7 +89,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0


From d5f350608d2284b034f536fe134bc734708c1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 15/24] fix: a connection refused during shutdown does not make
 Serve fail

When a connection is accepted just as the shutdown begins, package listener
returns its own "use of closed network connection" error, not an OpError,
which Serve returned (and goji.Serve passed to log.Fatal).
---
 graceful/graceful.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..b4d1f84 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -61,5 +61,10 @@ func peacefulError(err error) error {
 			}
 		}
 	}
+	// A connection that was already being accepted when its listener started
+	// draining is refused by package listener itself.
+	if err != nil && err.Error() == errClosing {
+		return nil
+	}
 	return err
 }
-- 
2.43.0


From 9faba5f4f5e3b6d1e1a6b331fcdaa4d43ed716d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 16/24] fix: a listener handed over after the shutdown began
 does not serve

Nobody closed it any more: Serve kept accepting connections for ever although
Wait had returned or was about to.
---
 graceful/graceful.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index b4d1f84..603c49f 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -35,6 +35,11 @@ func appendListener(l *listener.T) {
 	defer mu.Unlock()
 
 	listeners = append(listeners, l)
+	if atomic.LoadInt32(&closing) != 0 {
+		// Too late: the shutdown has already been through the list.
+		l.Close()
+		go l.Drain()
+	}
 }
 
 const errClosing = "use of closed network connection"
-- 
2.43.0


From 98cf51959f4be9edbe0d5d7c5fab658d249799ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 17/24] fix: ListenAndServeTLS honours every field of the TLS
 configuration

The copy it works on dropped the fields added after Go 1.6
(VerifyPeerCertificate, GetConfigForClient, KeyLogWriter and others).
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..05b73d9
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,13 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// see clone16.go
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From 2547c94184a02707a2e855ad5eab2d3efe64016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 18/24] fix: SubRouter restores the outer match even if Env was
 replaced inside

When an inner middleware replaced c.Env, the outer match was put back into the
replacement only, and the outer mux, which holds the original map, lost it.
---
 web/middleware/subrouter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/middleware/subrouter.go b/web/middleware/subrouter.go
index e5b0921..3b44231 100644
--- a/web/middleware/subrouter.go
+++ b/web/middleware/subrouter.go
@@ -19,15 +19,21 @@ func (s subrouter) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		}
 		if ok {
 			oldpath := r.URL.Path
+			oldenv := s.c.Env
 			oldmatch := web.GetMatch(*s.c)
 			r.URL.Path = path
 			if oldmatch.Handler != nil {
-				delete(s.c.Env, web.MatchKey)
+				delete(oldenv, web.MatchKey)
 			}
 
 			defer func() {
 				r.URL.Path = oldpath
 
+				// The outer mux still uses this one even if
+				// an inner middleware has replaced it.
+				if oldmatch.Handler != nil {
+					oldenv[web.MatchKey] = oldmatch
+				}
 				if s.c.Env == nil {
 					return
 				}
-- 
2.43.0


From 1f790a17402aa86e9e874f0b968fb6dba5e0c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 19/24] fix: SubRouter leaves no inner match behind in the
 outer environment

---
 web/middleware/subrouter.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/web/middleware/subrouter.go b/web/middleware/subrouter.go
index 3b44231..2d966a6 100644
--- a/web/middleware/subrouter.go
+++ b/web/middleware/subrouter.go
@@ -29,25 +29,27 @@ func (s subrouter) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			defer func() {
 				r.URL.Path = oldpath
 
-				// The outer mux still uses this one even if
-				// an inner middleware has replaced it.
-				if oldmatch.Handler != nil {
-					oldenv[web.MatchKey] = oldmatch
-				}
-				if s.c.Env == nil {
-					return
-				}
-				if oldmatch.Handler != nil {
-					s.c.Env[web.MatchKey] = oldmatch
-				} else {
-					delete(s.c.Env, web.MatchKey)
-				}
+				// The outer mux still uses the old environment even
+				// if an inner middleware has replaced it.
+				restoreMatch(oldenv, oldmatch)
+				restoreMatch(s.c.Env, oldmatch)
 			}()
 		}
 	}
 	s.h.ServeHTTP(w, r)
 }
 
+func restoreMatch(env map[interface{}]interface{}, m web.Match) {
+	if env == nil {
+		return
+	}
+	if m.Handler != nil {
+		env[web.MatchKey] = m
+	} else {
+		delete(env, web.MatchKey)
+	}
+}
+
 /*
 SubRouter is a helper middleware that makes writing sub-routers easier.
 
-- 
2.43.0


From a3c1c01a32e0d5fd4b136dbf6d6e3740cc73d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 20/24] fix: NoCache removes a conditional header whose first
 value is empty

A header like 'If-None-Match' given twice, the first time without a value,
got past NoCache.
---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..25c1d89 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From fd1ce53052b12eb40d0b40446c0333a06896adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 21/24] fix: hooks run without holding the package's lock

A hook that registers a hook or changes a setting no longer deadlocks the
shutdown, and a slow hook no longer holds up signals.
---
 graceful/signal.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/graceful/signal.go b/graceful/signal.go
index 55061a5..c0bf49f 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -169,11 +169,7 @@ var preOnce, closeOnce, forceOnce, postOnce, notifyOnce sync.Once
 
 func shutdown(force bool, sig os.Signal) {
 	preOnce.Do(func() {
-		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range prehooks {
-			f(sig)
-		}
+		runHooks(&prehooks, sig)
 	})
 
 	if force {
@@ -187,11 +183,7 @@ func shutdown(force bool, sig os.Signal) {
 	}
 
 	postOnce.Do(func() {
-		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range posthooks {
-			f(sig)
-		}
+		runHooks(&posthooks, sig)
 	})
 
 	notifyOnce.Do(func() {
@@ -199,6 +191,21 @@ func shutdown(force bool, sig os.Signal) {
 	})
 }
 
+// runHooks calls the hooks in order. The lock isn't held meanwhile: hooks may
+// take their time, and may use this package themselves.
+func runHooks(hooks *[]func(os.Signal), sig os.Signal) {
+	for i := 0; ; i++ {
+		mu.Lock()
+		if i >= len(*hooks) {
+			mu.Unlock()
+			return
+		}
+		f := (*hooks)[i]
+		mu.Unlock()
+		f(sig)
+	}
+}
+
 func closeListeners(force bool) {
 	atomic.StoreInt32(&closing, 1)
 
-- 
2.43.0


From d3896796923741b63817f91a5cf221a213ba126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:52 +0000
Subject: [PATCH 22/24] fix: graceful: a pipelined request being handled keeps
 its connection in use

A request that was read together with the previous one starts without
another Read: its connection stayed marked as idle, and a shutdown closed
it in the middle of the request.
---
 graceful/serve13.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graceful/serve13.go b/graceful/serve13.go
index 68cac04..52d6448 100644
--- a/graceful/serve13.go
+++ b/graceful/serve13.go
@@ -44,7 +44,15 @@ func (c connState) Wrap(nc net.Conn, s http.ConnState) {
 	// https://groups.google.com/forum/#!topic/golang-nuts/Xi8yjBGWfCQ
 	// I'd be very eager to find a better way to do this, so reach out to me
 	// if you have any ideas.
+	//
+	// StateActive still has something to tell us: a pipelined request may
+	// have been read together with the previous one, in which case nothing
+	// was read from the connection since it was last marked as idle.
 	switch s {
+	case http.StateActive:
+		if err := listener.MarkInUse(nc); err != nil {
+			log.Printf("error marking conn as in use: %v", err)
+		}
 	case http.StateIdle:
 		if err := listener.MarkIdle(nc); err != nil {
 			log.Printf("error marking conn as idle: %v", err)
-- 
2.43.0


From b094adfed08b66ad71fd484a3edd06f92fdc084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 23/24] fix: report negative descriptors in bind strings
 instead of crashing

---
 bind/bind.go    | 3 +++
 bind/einhorn.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..8e38d22 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -108,6 +108,9 @@ func listenTo(bind string) (net.Listener, error) {
 				bind, err)
 		}
 		f := os.NewFile(uintptr(fd), bind)
+		if f == nil {
+			return nil, fmt.Errorf("invalid fd %v", bind)
+		}
 		defer f.Close()
 		return net.FileListener(f)
 	} else if strings.HasPrefix(bind, "einhorn@") {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..7b75677 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -65,6 +65,9 @@ func einhornBind(n int) (net.Listener, error) {
 
 	fno := einhornFdMap(n)
 	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
+	if f == nil {
+		return nil, fmt.Errorf("bind: invalid fd %d for einhorn@%d", fno, n)
+	}
 	defer f.Close()
 	return net.FileListener(f)
 }
-- 
2.43.0


From 18b98dc5d24338bf00d2ff9368a0e3d6112b61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:45 +0000
Subject: [PATCH 24/24] fix: offer HTTP/1.1 in addition to the protocols the
 user configures

net/http's ListenAndServeTLS does, and clients which offer nothing but
http/1.1 could not connect otherwise.
---
 graceful/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/graceful/server.go b/graceful/server.go
index ae9a5fb..c136d96 100644
--- a/graceful/server.go
+++ b/graceful/server.go
@@ -60,8 +60,15 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 	if srv.TLSConfig != nil {
 		config = cloneTLSConfig(srv.TLSConfig)
 	}
-	if config.NextProtos == nil {
-		config.NextProtos = []string{"http/1.1"}
+	offered := false
+	for _, proto := range config.NextProtos {
+		if proto == "http/1.1" {
+			offered = true
+		}
+	}
+	if !offered {
+		// The slice might be shared with the user's configuration.
+		config.NextProtos = append(append([]string(nil), config.NextProtos...), "http/1.1")
 	}
 
 	var err error
-- 
2.43.0

