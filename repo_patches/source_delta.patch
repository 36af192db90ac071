From 06fe2de21e3dad77921152601a7c113ffe15f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 01/83] fix: memory CXDS: Del must remove the object

---
 data/cxds/memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..8149667 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,8 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
+
 	return
 }
 
-- 
2.43.0


From 701718b755737710598144c9bc9ee87d560e425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 02/83] fix: drive CXDS: save the statistics, not the version,
 in encodeUint32

---
 data/cxds/cxds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..cf495da 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
-- 
2.43.0


From d76aa4192b780ee8ae7587a5a50ef332481bc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 03/83] fix: drive CXDS: Set of a new object must honour the
 inc argument

---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..3075b63 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
-- 
2.43.0


From 9dd6bfc2deaf3e98179bc9294a2cd8ec4c782376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 04/83] fix: drive CXDS: Inc must not swallow an error of the
 transaction

---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 3075b63..8b111c4 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -399,7 +399,7 @@ func (d *driveCXDS) Inc(
 	err error,
 ) {
 
-	var tx = func(tx *bolt.Tx) (_ error) {
+	var tx = func(tx *bolt.Tx) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
-- 
2.43.0


From 8329ba3143a45ef7e262fd888810a7bfbe7740ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 05/83] fix: IdxDB: Len must count uncommitted elements and
 must not count nested buckets

---
 data/idxdb/drive.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..4ef609c 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -179,7 +179,17 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
+}
+
+// bucketLen is number of elements of given bucket, including
+// not committed and excluding elements of nested buckets
+func bucketLen(bk *bolt.Bucket) (length int) {
+	bk.ForEach(func(_, _ []byte) (_ error) {
+		length++
+		return
+	})
+	return
 }
 
 type driveHeads struct {
@@ -251,7 +261,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveRoots struct {
@@ -401,7 +411,7 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return bucketLen(d.bk)
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From 8c302c9191ff12f00e254d83a432dc4f247a0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 06/83] fix: IdxDB: stop iterating after the greatest possible
 key

---
 data/idxdb/drive.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 4ef609c..1623324 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -146,21 +146,24 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 			}
 			return
 		}
-		incSlice(pk[:])
+		if incSlice(pk[:]) == false {
+			return // it was the greatest possible key
+		}
 	}
 	return
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice, it returns false on overflow
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
 
 // Has performs presence check
@@ -294,7 +297,10 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // it was the greatest possible seq
+		}
+
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From 8dd1765dbd4357d95e8a005df3268d103b9c052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 07/83] fix: drive CXDS: IterateDel must stop after the
 greatest possible key

---
 data/cxds/cxds.go  | 7 ++++---
 data/cxds/drive.go | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index cf495da..7f58c64 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -64,14 +64,15 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice, it returns false on overflow
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 8b111c4..9b47778 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -542,7 +542,9 @@ func (d *driveCXDS) IterateDel(
 				d.del(rc, len(v)-4) // stat
 			}
 
-			incSlice(key[:]) // next
+			if incSlice(key[:]) == false {
+				return // it was the greatest possible key
+			}
 		}
 
 		return
-- 
2.43.0


From a214b91e9f30e3d488b3d6408ab0edd8d77e4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 08/83] fix: drive CXDS: count an object in the statistics only
 if its transaction commits

---
 data/cxds/drive.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 9b47778..743106e 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -291,7 +291,9 @@ func (d *driveCXDS) incr(
 	err = o.Put(key[:], repl)
 
 	if rc != nrc {
-		d.av(rc, nrc, len(val))
+		// don't touch the statistics if the transaction fails
+		var vol = len(val)
+		o.Tx().OnCommit(func() { d.av(rc, nrc, vol) })
 	}
 
 	return
@@ -377,7 +379,7 @@ func (d *driveCXDS) Set(
 		if len(got) == 0 {
 
 			// created
-			d.addAll(len(val))
+			tx.OnCommit(func() { d.addAll(len(val)) })
 
 			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
@@ -465,7 +467,8 @@ func (d *driveCXDS) Del(
 			return
 		}
 
-		d.del(getRefsCount(got), len(got)-4)
+		var grc, vol = getRefsCount(got), len(got) - 4
+		tx.OnCommit(func() { d.del(grc, vol) })
 		return // nil
 	})
 
@@ -539,7 +542,8 @@ func (d *driveCXDS) IterateDel(
 					return
 				}
 
-				d.del(rc, len(v)-4) // stat
+				var drc, vol = rc, len(v) - 4
+				tx.OnCommit(func() { d.del(drc, vol) }) // stat
 			}
 
 			if incSlice(key[:]) == false {
-- 
2.43.0


From 55f3fcf78dab9cdbf21df16445b9a98a32bc4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 09/83] fix: statutil: average of the samples so far, until all
 the bins are filled

---
 skyobject/statutil/average.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..8843ad2 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -54,13 +54,15 @@ func NewDuration(n int) (d *Duration) {
 		d.mx.Lock()
 		defer d.mx.Unlock()
 
+		var x = float64(dur)
+
 		if c < n {
-			c++
+			c++ // the bins[i] is not a sample yet
+			average += (x - average) / float64(c)
+		} else {
+			average += (x - bins[i]) / float64(n)
 		}
 
-		var x = float64(dur)
-
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
@@ -115,13 +117,15 @@ func NewFloat(n int) (f *Float) {
 		f.mx.Lock()
 		defer f.mx.Unlock()
 
+		var x = float64(dur)
+
 		if c < n {
-			c++
+			c++ // the bins[i] is not a sample yet
+			average += (x - average) / float64(c)
+		} else {
+			average += (x - bins[i]) / float64(n)
 		}
 
-		var x = float64(dur)
-
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
-- 
2.43.0


From e7b9aa2caf6db43f56c4609a963a1af92269497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 10/83] fix: log: the -debug-pins flag must set the Pins

---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..40f2428 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From e4dedf97520f23c4986f39834cadab77d3641a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 11/83] fix: log: print arguments of Error and Errorln as they
 are, and don't use error text as a format

---
 node/log/log.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 40f2428..004f99c 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -183,20 +183,20 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
 	errArgs := []interface{}{
-		"[ERR] ",
-		fmt.Sprintf("err=%s ", err),
+		"[ERR]",
+		fmt.Sprintf("err=%s", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprintln(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
-	l.Output(2, fmt.Sprintf(format, args...))
+	// the text of the error is not a part of the format
+	l.Output(2, fmt.Sprintf("[ERR] err=%s ", err)+fmt.Sprintf(format, args...))
 }
 
 func (l *logger) Pins() Pin {
-- 
2.43.0


From 1301b960f9c9563a1f5b91c6e8748a8e3205c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 12/83] fix: skyobject: NewConfig must set CacheRegistries and
 MaxFillingParallel

---
 skyobject/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skyobject/config.go b/skyobject/config.go
index 80348b4..aa8fcbb 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -216,11 +216,14 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxAmount = CacheMaxAmount
 	conf.CacheMaxVolume = CacheMaxVolume
 	conf.CachePolicy = LRU
+	conf.CacheRegistries = CacheRegistries
 	conf.CacheCleaning = CacheCleaning
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
 	conf.MaxObjectSize = MaxObjectSize
 
+	conf.MaxFillingParallel = MaxFillingParallel
+
 	// data dir
 	conf.DataDir = DataDir()
 
-- 
2.43.0


From fc9e74bd20cbf82b75b0ced92609d2b7d5e4a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 13/83] fix: handshake panics when the response timeout is
 disabled

---
 node/handshake.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..4be7c4a 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -39,6 +39,7 @@ func (c *Conn) performHandshake() error {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time // nil to wait infinitely
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -47,6 +48,7 @@ func (c *Conn) performHandshake() error {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -81,7 +83,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -99,6 +101,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time // nil to wait infinitely
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -107,6 +110,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -171,7 +175,7 @@ func (c *Conn) acceptHandshake() (err error) {
 		// Handshake is complete.
 		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
-- 
2.43.0


From 2e8ce0c8b5e49e0329d4e4e6fa9c5fbf8331913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 14/83] fix: a failed handshake panics if somebody waits for it

---
 node/node.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index ddf20bb..732e811 100644
--- a/node/node.go
+++ b/node/node.go
@@ -417,7 +417,6 @@ func (n *Node) initConn(
 			return nil, errors.New("already have incoming pending connection")
 		}
 		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
 			return nil, err
 		}
 		return c, nil
-- 
2.43.0


From ec24fa30203b5bd7c591fa28bc9bb888c9615a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 15/83] fix: closing a connection twice, or one that failed,
 panics

---
 node/conn.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..7dde8e1 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	initErr error
 	initq   chan struct{}
 
+	closeo sync.Once      // close the closeq once
 	closeq chan struct{}  // signal for all goroutines to exit
 	await  sync.WaitGroup // wait for all goroutines to exit
 
@@ -84,14 +85,14 @@ func (c *Conn) run() {
 	go func() {
 		defer c.await.Done()
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+			c.terminate()
 		}
 	}()
 
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+		c.terminate()
 	}
 
 	// Wait for all groutines to exit.
@@ -398,9 +399,16 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
+// terminate all goroutines
+func (c *Conn) terminate() {
+	c.closeo.Do(func() {
+		close(c.closeq)
+	})
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
+	c.terminate()
 	c.await.Wait()
 
 	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
-- 
2.43.0


From c5411902dd47227202672fb75cfef5b7b3e8835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:28 +0000
Subject: [PATCH 16/83] fix: Dynamic with schema only looks up blank hash in
 Value

---
 skyobject/registry/dynamic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 6af04ab..49040a3 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -55,7 +55,8 @@ func (d *Dynamic) Value(
 		return ErrInvalidDynamicReference
 	}
 
-	if true == d.IsBlank() {
+	// a Dynamic that has Schema only represents nil too
+	if d.Hash == (cipher.SHA256{}) {
 		return ErrReferenceRepresentsNil
 	}
 
-- 
2.43.0


From 8aa97930e762e4f0f64d9e2c5747a38c60f67179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 17/83] fix: appending to Refs left full upper nodes without
 hash

---
 skyobject/registry/refs_node.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..9335cd1 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1109,16 +1109,13 @@ func (r *Refs) appendNodeGoUp(
 	// is > 0 and the ap.rn.upper contains branches
 	if len(ap.rn.branches) == int(r.degree) {
 
-		// not increased (idle pass)
-		if ap.increase == 0 {
-			return r.appendNodeGoUp(pack, ap, hash) // go up
-		}
+		// the increase has been bubbled up (above), but every
+		// full node on the way up still needs to be updated
 
 		ap.increase = 0 // reset
 
 		// TODO (kostyarin): LazyUpdating
 
-		// else -> increased
 		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
 			return // saving error
 		}
-- 
2.43.0


From a61c4813367311947b24d03121c311f3ca1921a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 18/83] fix: DeleteByHash with lazy updating marked unsaved
 changes of Refs as saved

---
 skyobject/registry/refs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..ca1f59b 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -723,9 +723,11 @@ func (r *Refs) deleteByHashUsingHashTable(
 
 	// if the Refs contains one element with the hash,
 	// then we update subtree in place, otherwise
-	// we call walkUpdating in the end
+	// we call walkUpdating in the end; if the
+	// updating is lazy, then other unsaved changes
+	// are possible and we don't update anything
 
-	var one = len(els) == 1 // only one element
+	var one = len(els) == 1 && r.flags&LazyUpdating == 0 // only one element
 
 	delete(r.refsIndex, hash) // remove all from the index
 
-- 
2.43.0


From d20671dc532c1c69815e090bf2cc1017559c0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 19/83] fix: appending to Refs lost changes not saved because
 of lazy updating

---
 skyobject/registry/refs.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index ca1f59b..50db84b 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1386,6 +1386,17 @@ func (r *Refs) walkUpdating(
 	return r.updateHashIfNeed(pack, true)
 }
 
+// saveUnsaved changes of the Refs if there are (see
+// LazyUpdating flag); an appending updates nodes it
+// passes through, and the changes below these nodes
+// must be saved before
+func (r *Refs) saveUnsaved(pack Pack) (err error) {
+	if r.mods&contentMod == 0 {
+		return
+	}
+	return r.walkUpdating(pack)
+}
+
 // Append another Refs to this one. This Refs
 // will be increased if it can't fit all new
 // elements
@@ -1465,6 +1476,10 @@ func (r *Refs) Append(
 
 	// ok, here we have enough place to fit all new elements
 
+	if err = r.saveUnsaved(pack); err != nil {
+		return // saving error
+	}
+
 	var af, fini = r.appnedFunc(pack)
 
 	if err = refs.Ascend(pack, af); err != nil {
@@ -1602,6 +1617,10 @@ func (r *Refs) AppendHashes(
 
 	// ok, here we have enough place to fit all new elements
 
+	if err = r.saveUnsaved(pack); err != nil {
+		return // saving error
+	}
+
 	var af, fini = r.appnedFunc(pack) // the func
 
 	for i, hash := range hashes {
-- 
2.43.0


From 3d6967ddde405790981db3f68a41ac9c5fe2ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:52 +0000
Subject: [PATCH 20/83] fix: Refs that failed to load looked like blank

---
 skyobject/registry/refs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 50db84b..641d477 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -102,6 +102,14 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return // blank Refs, don't need to load
 	}
 
+	// if the loading fails, then the Refs is not initialized,
+	// otherwise it would look like a blank one
+	defer func() {
+		if err != nil {
+			*r = Refs{Hash: r.Hash}
+		}
+	}()
+
 	var er encodedRefs
 	if err = get(pack, r.Hash, &er); err != nil {
 		return // get or decoding error
-- 
2.43.0


From 7d98940bd6066edc2d5cfd5603f906d03a84cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 21/83] fix: element of Refs with an empty branch panicked

---
 skyobject/registry/refs_node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 9335cd1..23e89ab 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -333,6 +333,10 @@ func (r *Refs) elementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return nil, ErrInvalidRefs // no branches
+	}
+
 	return r.elementByIndex(pack, br, i, depth-1)
 }
 
@@ -532,6 +536,10 @@ func (r *Refs) deleteElementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return ErrInvalidRefs // no branches
+	}
+
 	// keep j for now
 
 	if err = r.deleteElementByIndex(pack, br, i, depth-1); err != nil {
-- 
2.43.0


From ae3a8a242564502bf30a16eb9f33d5152876bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 22/83] fix: size of a slice of empty elements took a loop of
 its length

---
 skyobject/registry/schema_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skyobject/registry/schema_helpers.go b/skyobject/registry/schema_helpers.go
index a4e6538..d4167dd 100644
--- a/skyobject/registry/schema_helpers.go
+++ b/skyobject/registry/schema_helpers.go
@@ -41,6 +41,9 @@ func schemaArraySliceSize(el Schema, l, shift int, p []byte) (n int,
 			if m, err = el.Size(p[n:]); err != nil {
 				return
 			}
+			if m == 0 {
+				break // elements of zero size, there is nothing to look at
+			}
 			n += m
 		}
 	}
-- 
2.43.0


From 8fdf22c2e31a75c9a3636c4f159458ae9ec1e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 23/83] fix: decoding of a damaged registry panicked or never
 ended

---
 skyobject/registry/registry.go | 91 ++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 20 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..c9d6561 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -48,16 +49,24 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 		return
 	}
 
-	r = newRegistry()
+	var reg = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
-		r.reg[re.Name] = s
-		r.srf[s.Reference()] = s
+		if s, err = decodeSchema(re.Schema); err != nil {
+			return
+		}
+		// only named structures
+		if !s.IsRegistered() || s.Name() != re.Name {
+			err = ErrInvalidEncodedSchema
+			return
+		}
+		reg.reg[re.Name] = s
 	}
 
-	r.finialize()
-	return
+	if err = reg.finialize(); err != nil {
+		return
+	}
+	return reg, nil
 }
 
 // NewRegistry creates filled up Registry using provided
@@ -78,7 +87,9 @@ func NewRegistry(cl func(t *Reg)) (r *Registry) {
 	r.nt = make(map[string]reflect.Type)
 
 	r.register(reg)
-	r.finialize()
+	if err := r.finialize(); err != nil {
+		panic(err)
+	}
 
 	return
 }
@@ -150,25 +161,24 @@ func (r *Registry) register(reg *Reg) {
 
 // set proper references for schemas that has references to
 // another schemas, such as arrays, slices and structs
-func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
+func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) (err error) {
 	if _, ok := filled[s]; ok {
 		return // already
 	}
 	filled[s] = struct{}{} // filling
-	var err error
 	if s.IsReference() {
 		switch s.ReferenceType() {
 		case ReferenceTypeSingle, ReferenceTypeSlice:
 			x := s.(*referenceSchema)
 			x.elem, err = r.schemaByName(x.elem.Name())
 			if err != nil {
-				panic(err)
+				return
 			}
-			r.fillSchema(x.elem, filled)
+			return r.fillSchema(x.elem, filled)
 		case ReferenceTypeDynamic:
 			// do nothing
 		default:
-			panic("invalid reference: " + s.String())
+			return errors.New("invalid reference: " + s.String())
 		}
 		return
 	}
@@ -178,32 +188,63 @@ func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Slice:
 		x := s.(*sliceSchema)
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Struct:
 		for i, f := range s.Fields() {
 			x := f.(*field)
 			if fs := f.Schema(); fs.IsRegistered() {
 				x.schema, err = r.schemaByName(fs.Name())
 				if err != nil {
-					panic(err)
+					return
 				}
 			}
-			r.fillSchema(x.schema, filled)
+			if err = r.fillSchema(x.schema, filled); err != nil {
+				return
+			}
 			s.(*structSchema).fields[i] = x
 		}
 	}
+	return
+}
+
+// checkRecursion returns error if the Schema contains itself,
+// other than through a reference; all filled schemas checked
+// before are in the checked map
+func checkRecursion(s Schema, checked map[Schema]bool) (err error) {
+	if s.IsReference() {
+		return
+	}
+	if done, ok := checked[s]; ok {
+		if !done {
+			err = fmt.Errorf("recursive schema %q", s.String())
+		}
+		return
+	}
+	checked[s] = false // checking
+	switch s.Kind() {
+	case reflect.Array, reflect.Slice:
+		err = checkRecursion(s.Elem(), checked)
+	case reflect.Struct:
+		for _, f := range s.Fields() {
+			if err = checkRecursion(f.Schema(), checked); err != nil {
+				return
+			}
+		}
+	}
+	checked[s] = true
+	return
 }
 
 func (r *Registry) schemaByName(name string) (s Schema, err error) {
@@ -214,10 +255,19 @@ func (r *Registry) schemaByName(name string) (s Schema, err error) {
 	return
 }
 
-func (r *Registry) finialize() {
+func (r *Registry) finialize() (err error) {
 	filled := make(map[Schema]struct{})
 	for _, sch := range r.reg {
-		r.fillSchema(sch, filled)
+		if err = r.fillSchema(sch, filled); err != nil {
+			return
+		}
+	}
+
+	checked := make(map[Schema]bool)
+	for _, sch := range r.reg {
+		if err = checkRecursion(sch, checked); err != nil {
+			return
+		}
 	}
 
 	// fill up map by SchemaRef
@@ -227,6 +277,7 @@ func (r *Registry) finialize() {
 
 	encoded := r.Encode()
 	r.ref = RegistryRef(cipher.SumSHA256(encoded))
+	return
 }
 
 // TagSchemaName returns schema name from given reflect.StructTag.
-- 
2.43.0


From fc4db62ad2c02179f3546d7c742cd76bbe70e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 24/83] fix: walking and splitting refused every array and
 slice that contains references

---
 skyobject/registry/split.go | 4 ++--
 skyobject/registry/walk.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From 10c56ba326b0fd1b116f20b2c0da7361c3fd2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 25/83] fix: walking and splitting took a loop of the length of
 an array of empty elements

---
 skyobject/registry/split.go | 4 ++++
 skyobject/registry/walk.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index d3c3a28..38cabf8 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -268,6 +268,10 @@ func splitArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // nothing inside the elements
+		}
+
 		// split
 		splitSchemaDataAsync(s, el, val[shift:shift+m])
 
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..b8ba553 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -204,6 +204,10 @@ func walkArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // nothing inside the elements
+		}
+
 		// if we are here, then the el contains references
 		// and we don't need to call el.HasReferences(),
 		// we just walk the element
-- 
2.43.0


From 5a0bc86f4f7e157910742a6c075b692173d24216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 26/83] fix: splitting a Dynamic with schema only needed the
 schema

---
 skyobject/registry/dynamic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 49040a3..8bee433 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -158,7 +158,8 @@ func (d *Dynamic) Split(s Splitter) {
 		return
 	}
 
-	if d.IsBlank() == true {
+	// a Dynamic that has Schema only represents nil too
+	if d.Hash == (cipher.SHA256{}) {
 		return // nothing to split
 	}
 
-- 
2.43.0


From b3ab8c17b4e41a61dfa08c7b20d83aca1d9303d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:35 +0000
Subject: [PATCH 27/83] fix: a walk went on after ErrStopIteration, or returned
 it

---
 skyobject/registry/dynamic.go   | 27 ++++++++++++--------
 skyobject/registry/ref.go       | 25 +++++++++++++------
 skyobject/registry/refs_walk.go | 44 ++++++++++++++-------------------
 skyobject/registry/root.go      |  2 +-
 skyobject/registry/walk.go      |  6 ++---
 5 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 8bee433..094e595 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -107,6 +107,22 @@ func (d *Dynamic) Walk(
 	err error,
 ) {
 
+	if err = d.walk(pack, walkFunc); err == ErrStopIteration {
+		err = nil // suppress this error
+	}
+
+	return
+}
+
+// walk is the same as the Walk, but it returns ErrStopIteration
+// as is, to stop an outer walking too
+func (d *Dynamic) walk(
+	pack Pack,
+	walkFunc WalkFunc,
+) (
+	err error,
+) {
+
 	if walkFunc == nil {
 		panic("walkFunc is nil") // for developers
 	}
@@ -117,9 +133,6 @@ func (d *Dynamic) Walk(
 
 	var deepper bool
 	if deepper, err = walkFunc(d.Hash, 0); err != nil {
-		if err == ErrStopIteration {
-			err = nil // suppress this error
-		}
 		return
 	}
 
@@ -141,13 +154,7 @@ func (d *Dynamic) Walk(
 		return
 	}
 
-	err = walkSchemaHash(pack, sch, d.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil // suppress this error
-	}
-
-	return
+	return walkSchemaHash(pack, sch, d.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Dynamic.
diff --git a/skyobject/registry/ref.go b/skyobject/registry/ref.go
index 2ac72ba..a54d2b3 100644
--- a/skyobject/registry/ref.go
+++ b/skyobject/registry/ref.go
@@ -104,6 +104,23 @@ func (r *Ref) Walk(
 	err error,
 ) {
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+}
+
+// walk is the same as the Walk, but it returns ErrStopIteration
+// as is, to stop an outer walking too
+func (r *Ref) walk(
+	pack Pack, //         :
+	sch Schema, //        :
+	walkFunc WalkFunc, // :
+) (
+	err error,
+) {
+
 	var deepper bool
 	if deepper, err = walkFunc(r.Hash, 0); err != nil || deepper == false {
 		return
@@ -113,13 +130,7 @@ func (r *Ref) Walk(
 		return // ignore the deepper
 	}
 
-	err = walkSchemaHash(pack, sch, r.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
+	return walkSchemaHash(pack, sch, r.Hash, walkFunc)
 
 }
 
diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..6b1fdbc 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -44,9 +44,7 @@ type WalkFunc func(
 // walk if the Refs is blank
 func (r *Refs) walkBlank(walkFunc WalkFunc) (err error) {
 	// the depth can't be zero
-	if _, err = walkFunc(r.Hash, 1); err == ErrStopIteration {
-		err = nil
-	}
+	_, err = walkFunc(r.Hash, 1)
 	return // done
 }
 
@@ -93,6 +91,23 @@ func (r *Refs) Walk(
 	err error, //             : an error
 ) {
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+}
+
+// walk is the same as the Walk, but it returns ErrStopIteration
+// as is, to stop an outer walking too
+func (r *Refs) walk(
+	pack Pack, //             : pack to save and load
+	sch Schema, //            : schema of elements of the Refs
+	walkFunc WalkFunc, //     : the function
+) (
+	err error, //             : an error
+) {
+
 	if walkFunc == nil {
 		panic("walkFunc is nil") // for developers
 	}
@@ -155,22 +170,13 @@ func (r *Refs) Walk(
 
 	// starting from Root (depth + 1 for the root)
 	if deepper, err = walkFunc(r.Hash, r.depth+1); err != nil {
-		if err == ErrStopIteration {
-			err = nil
-		}
 		return
 	} else if deepper == false {
 		return // done
 	}
 
 	// walk from nodes
-	err = r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
+	return r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
 
 }
 
@@ -194,9 +200,6 @@ func (r *Refs) walkNode(
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
 
-				if err == ErrStopIteration {
-					err = nil
-				}
 				return
 
 			} else if deepper == true {
@@ -204,9 +207,6 @@ func (r *Refs) walkNode(
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
 				if err != nil {
-					if err == ErrStopIteration {
-						err = nil
-					}
 					return
 				}
 
@@ -226,9 +226,6 @@ func (r *Refs) walkNode(
 		// leafs
 
 		if deepper, err = walkFunc(br.hash, depth); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		} else if deepper == false {
 			continue // let's look at the next brnahc
@@ -241,9 +238,6 @@ func (r *Refs) walkNode(
 		}
 
 		if err = r.walkNode(pack, sch, br, depth-1, walkFunc); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		}
 
diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 3f60d78..994d62e 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -96,7 +96,7 @@ func DecodeRoot(val []byte) (r *Root, err error) {
 func (r *Root) Walk(pack Pack, walkFunc WalkFunc) (err error) {
 
 	for _, dr := range r.Refs {
-		if err = dr.Walk(pack, walkFunc); err != nil {
+		if err = dr.walk(pack, walkFunc); err != nil {
 			if err == ErrStopIteration {
 				err = nil
 			}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b8ba553..2ad1d93 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -94,7 +94,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return ref.Walk(pack, el, walkFunc)
+		return ref.walk(pack, el, walkFunc)
 
 	case ReferenceTypeSlice: // Refs
 
@@ -108,7 +108,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return refs.Walk(pack, el, walkFunc)
+		return refs.walk(pack, el, walkFunc)
 
 	case ReferenceTypeDynamic: // Dynamic
 
@@ -116,7 +116,7 @@ func walkSchemaReference(
 		if _, err = encoder.DeserializeRaw(val, &dr); err != nil {
 			return
 		}
-		return dr.Walk(pack, walkFunc)
+		return dr.walk(pack, walkFunc)
 
 	default:
 
-- 
2.43.0


From a868ec2f5892c220b363eb01df1ff8a16495098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 28/83] fix: walking Refs with unsaved changes visited its old
 hash

---
 skyobject/registry/refs_walk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b1fdbc..8612010 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -163,6 +163,12 @@ func (r *Refs) walk(
 			return
 		}
 
+	} else if err = r.saveUnsaved(pack); err != nil {
+
+		// hashes of the Refs must be actual to walk through
+
+		return
+
 	}
 
 	// ok, let's walk
-- 
2.43.0


From 4cbadad8f9e3375c8372edfde4e3f5c4620a849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 29/83] fix: walking deeper from blank element of Refs was an
 error

---
 skyobject/registry/refs_walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 8612010..862e480 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -200,7 +200,7 @@ func (r *Refs) walkNode(
 
 	if depth == 0 {
 
-		// the deepper ignored
+		// the deepper ignored if hash of a leaf is blank
 
 		for _, leaf := range rn.leafs {
 
@@ -208,7 +208,7 @@ func (r *Refs) walkNode(
 
 				return
 
-			} else if deepper == true {
+			} else if deepper == true && leaf.Hash != (cipher.SHA256{}) {
 
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
-- 
2.43.0


From 1cfef3708fcd6c7815d82c270c4bb7c8349efb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 30/83] fix: a preview asks a remote peer for objects only if
 the store does not have them

---
 skyobject/preview.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..28c72c7 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,8 +47,8 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
-		return // db failure
+	if val, err = p.Pack.Get(key); err != data.ErrNotFound {
+		return // found or db failure
 	}
 
 	// not found
-- 
2.43.0


From 9e86b092f489e0370bc6a150951ad50c31c4495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 31/83] fix: a preview refuses a root of another feed

---
 node/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 7dde8e1..24c1100 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -348,6 +348,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return errors.New("invalid reply: root of another feed")
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
-- 
2.43.0


From b4fc5a9f200fb3751b2fef5d0f3012161d282712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 32/83] fix: cleaning of the cache skips wanted and filling
 items instead of giving up on them, and does not delete an item twice

---
 skyobject/cache.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..cc9fe97 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -338,11 +338,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
@@ -360,12 +360,9 @@ func (c *Cache) cleanDown(vol int) (err error) {
 
 	if c.amount+1 > c.c.conf.CacheMaxAmount {
 
-		var (
-			i  int       // to reduce the rank slice
-			ri *rankItem // for the range (we need the i)
-		)
+		var removed int // to reduce the rank slice
 
-		for i, ri = range rank {
+		for i, ri := range rank {
 
 			if c.amount < c.amountc { // actually, `amount + 1 == ...`
 				break
@@ -377,10 +374,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 			}
 
 			rank[i].it = nil // GC
+			removed++
 
 		}
 
-		rank = rank[i:] // shift
+		rank = rank[removed:] // shift
 
 	}
 
-- 
2.43.0


From 701f5660603b0dabbee74a9a6d2ade1346151e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 33/83] fix: Inc of an object that is not in the cache returns
 its references counter

---
 skyobject/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index cc9fe97..76a6407 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -954,7 +954,9 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc) // hard rc
+
+	err = c.putItem(key, val, rc)
 	return
 
 }
-- 
2.43.0


From d5d8c9b0c7c2e80bc6b7268b5bf1dd73a3e576c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 34/83] fix: Want increments references counter of a cached
 object

---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 76a6407..3edf884 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1041,6 +1041,7 @@ func (c *Cache) Want(
 
 		// regular item in the cache
 
+		it.cc += inc
 		it.fc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
-- 
2.43.0


From 85fc3efb907d960de0a6933fbfec68e72e9931d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 35/83] fix: the cache reports a DB failure that occurs when
 references counter of a cached object turns to be zero

---
 skyobject/cache.go | 56 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3edf884..227f647 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -498,6 +498,30 @@ func incr(cc, inc int) (dcc int) {
 	return cc + inc
 }
 
+// change rc of the cached item removing the item if the
+// rc turns to be zero; the item will not be changed if
+// DB fails
+func (c *Cache) incCached(
+	key cipher.SHA256,
+	inc int,
+	it *item,
+) (
+	err error,
+) {
+
+	var cc = it.cc
+
+	if it.cc = incr(cc, inc); it.cc != 0 {
+		return
+	}
+
+	if err = c.delete(key, it); err != nil {
+		it.cc = cc // keep
+	}
+
+	return
+}
+
 // if item is filling then it exist in DB, but removed
 // from the cache (by the cleanDown, or if the cahe is
 // not used (is disabled)); thus if the cache disabled,
@@ -574,9 +598,11 @@ func (c *Cache) getNoCache(
 		val = it.val
 
 		// remove item if it's cc is zero
-		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it)
-		} else {
+		if err = c.incCached(key, inc, it); err != nil {
+			return // DB failure
+		}
+
+		if it.cc != 0 {
 			c.stat.addCacheGet(inc) // effective cache get
 		}
 
@@ -625,9 +651,11 @@ func (c *Cache) get(
 		val = it.val
 
 		// remove item if it's cc is zero
-		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it)
-		} else {
+		if err = c.incCached(key, inc, it); err != nil {
+			return // DB failure
+		}
+
+		if it.cc != 0 {
 			c.stat.addCacheGet(inc) // effective cache get
 			it.touch(c.c.conf.CachePolicy)
 		}
@@ -825,9 +853,11 @@ func (c *Cache) Set(
 		val = it.val
 
 		// remove item if it's cc is zero
-		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it) // not effective cache set
-		} else {
+		if err = c.incCached(key, inc, it); err != nil {
+			return // DB failure
+		}
+
+		if it.cc != 0 {
 			c.stat.addWritingCacheRequest() // effective cache set
 			it.touch(c.c.conf.CachePolicy)
 		}
@@ -907,9 +937,11 @@ func (c *Cache) incItem(
 	}
 
 	// remove item if it's cc is zero
-	if it.cc = incr(it.cc, inc); it.cc == 0 {
-		c.delete(key, it)
-	} else {
+	if err = c.incCached(key, inc, it); err != nil {
+		return // DB failure
+	}
+
+	if it.cc != 0 {
 		c.stat.addCacheGet(inc) // effective cache get
 		it.touch(c.c.conf.CachePolicy)
 	}
-- 
2.43.0


From aeec9df0f1cec4455ac55789c5133ab85b5a58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 36/83] fix: an object that is wanted, but not held, is sent to
 wanters without saving instead of panicking

---
 skyobject/cache.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 227f647..bc9700d 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -768,6 +768,25 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// nobody holds the object, thus it should not be
+	// stored, but those who wait for it want to get it
+	if inc+wincs == 0 {
+
+		var obj = Object{key, val, 0, nil}
+
+		for gc := range it.fwant {
+			sendWanted(gc, obj)
+		}
+
+		it.fwant = nil // not wanted anymore
+
+		if it.fc == 0 {
+			delete(c.is, key)
+		}
+
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From eac6dfe1253de1548adb705c8618a0f512776eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 37/83] fix: closing the cache with a wanted object fails and
 leaves DB opened

---
 skyobject/cache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index bc9700d..cd82ac5 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -262,12 +262,12 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
+		// a wanted item doesn't exist in DB and its
+		// wanters have not incremented rc yet
 		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
 			it.fwant = nil
+			delete(c.is, key)
+			continue
 		}
 
 		it.cc -= it.fc // remove all fincs
-- 
2.43.0


From 41cf4a4a435ad2ea22750a0043a94c978559ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 38/83] fix: the cache of registries removes the least used
 one, and keeps nothing if it is turned off

---
 skyobject/cache.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index cd82ac5..d1fdce7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -178,12 +178,14 @@ func (c *Cache) addRegistryToCache(r *registry.Registry) {
 		var (
 			tormr registry.RegistryRef // reference
 			tormp cachePoints          // points
+			found bool                 //
 		)
 
 		for rr, ir := range c.rs {
-			if ir.cachePoints > tormp {
+			if found == false || ir.cachePoints < tormp {
 				tormr = rr
 				tormp = ir.cachePoints
+				found = true
 			}
 		}
 
@@ -245,7 +247,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
-- 
2.43.0


From 6bd3fc5a00192138c1e216001bc657b64786917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:48 +0000
Subject: [PATCH 39/83] fix: the cache leaves marks of objects that nobody
 fills anymore, thus the objects can't be removed from DB

---
 skyobject/cache.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index d1fdce7..148ab25 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1136,6 +1136,11 @@ func (c *Cache) Want(
 
 	sendWanted(gc, Object{key, val, int(urc) - inc, nil})
 
+	if inc == 0 {
+		err = c.putItem(key, val, int(urc)) // nobody holds it
+		return
+	}
+
 	// create filling item in the cache
 
 	it = new(item)
@@ -1275,5 +1280,11 @@ func (c *Cache) Finc(
 	// incItem removes it
 
 	_, err = c.incItem(key, inc, it) // in db
+
+	// not wanted, not filling, not regular
+	if it.fc == 0 && len(it.val) == 0 && it.isWanted() == false {
+		delete(c.is, key)
+	}
+
 	return
 }
-- 
2.43.0


From 365f4020d735525f71ea748a108ba734c92d8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:17 +0000
Subject: [PATCH 40/83] fix: a Root with trailing bytes was accepted, and its
 encoding doesn't match its hash

---
 skyobject/registry/root.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 994d62e..5b88142 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -81,7 +82,15 @@ func (r *Root) String() string {
 // DecodeRoot decodes and encoded Root object
 func DecodeRoot(val []byte) (r *Root, err error) {
 	r = new(Root)
-	if _, err = encoder.DeserializeRaw(val, r); err != nil {
+
+	var n uint64
+	n, err = encoder.DeserializeRaw(val, r)
+
+	if err == nil && n != uint64(len(val)) {
+		err = errors.New("invalid encoded Root: unexpected trailing bytes")
+	}
+
+	if err != nil {
 		r = nil
 	}
 	return
-- 
2.43.0


From 843399968ef6e99a63c07afda8876ee0b3b29c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 41/83] fix: filling counts objects that already exist as other
 filling objects, and a failed filling leaves nothing

---
 skyobject/fill.go | 109 +++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 41 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..c3b06b5 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -51,46 +50,59 @@ func (f *Filler) get(
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
+	// get from DB or wait for the object; the Want increments
+	// filling rc of the object to hold it (if the inc is not zero)
+	var gc = make(chan Object, 1)
 
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
-		}
-		return
+	if err = f.c.Want(key, gc, inc); err != nil {
+		fatal("DB failure:", err) // fatality
 	}
+	defer f.c.Unwant(key, gc) // to be memory safe
 
-	if err != data.ErrNotFound {
-		fatal("DB failure:", err) // fatality
+	var (
+		obj Object
+		ok  bool
+	)
+
+	select {
+	case obj = <-gc:
+		ok = true // already have
+	default:
+		// requset the object using the rq channel
+		if f.requset(key) == false {
+			break
+		}
+		select {
+		case obj = <-gc:
+			ok = true
+		case <-f.closeq:
+		}
 	}
 
-	err = nil // clear if it's data.ErrNotFound
+	if ok == false {
 
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
+		// the object can be received anyway, and
+		// in this case it is already incremented
 
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
+		f.c.Unwant(key, gc)
+
+		select {
+		case obj = <-gc:
+		default:
+			err = ErrTerminated
+			return
+		}
+
+	}
 
-	// requset the object using the rq channel
-	if f.requset(key) == false {
+	if err = obj.Err; err != nil {
 		return
 	}
 
-	select {
-	case obj := <-gc:
-		if err = obj.Err; err != nil {
-			return
-		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
-		}
-	case <-f.closeq:
-		err = ErrTerminated
+	val, rc = obj.Val, obj.RC
+
+	if inc > 0 {
+		rc = f.inc(key, rc)
 	}
 
 	return
@@ -105,6 +117,8 @@ func (f *Filler) Pre(key cipher.SHA256) (rc int, err error) {
 		return
 	}
 
+	rc-- // don't count this Pre
+
 	f.mx.Lock()
 	defer f.mx.Unlock()
 
@@ -151,21 +165,15 @@ func (f *Filler) Fail(err error) {
 // if the item was requested by this filler,
 // then we can force split* methods to skip it
 // even if the item relates to this filling
-// Root only (is not hard)
+// Root only (is not hard); the rc is the hard
+// rc with incs of this filler
 func (f *Filler) inc(key cipher.SHA256, drc int) (rc int) {
 	f.mx.Lock()
 	defer f.mx.Unlock()
 
-	rc = drc
-
-	var finc, ok = f.incs[key]
+	f.incs[key]++ // +1 want (+1 finc)
 
-	if ok == true {
-		rc++
-	}
-
-	f.incs[key] = finc + 1 // +1 want (+1 finc)
-	return
+	return drc + f.incs[key]
 }
 
 func (f *Filler) requset(key cipher.SHA256) (ok bool) {
@@ -282,7 +290,7 @@ func (f *Filler) Run() (err error) {
 
 	// save Root
 
-	if _, err = f.c.Set(f.r.Hash, f.r.Encode(), 1); err != nil {
+	if err = f.saveRoot(); err != nil {
 		return
 	}
 
@@ -329,6 +337,25 @@ func (f *Filler) Run() (err error) {
 	return
 }
 
+// the Root is filling too
+func (f *Filler) saveRoot() (err error) {
+
+	var gc = make(chan Object, 1)
+
+	if err = f.c.Want(f.r.Hash, gc, 1); err != nil {
+		return
+	}
+	defer f.c.Unwant(f.r.Hash, gc)
+
+	select {
+	case <-gc: // already have
+	default:
+		_, err = f.c.SetWanted(f.r.Hash, f.r.Encode())
+	}
+
+	return
+}
+
 func (f *Filler) getRegistry() (err error) {
 
 	if f.r.Reg == (registry.RegistryRef{}) {
-- 
2.43.0


From ecdaa04635ee763b9d524b621ddcb50fd829473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 42/83] fix: a filling that failed at the end was taken as
 successful, and many failures block it

---
 skyobject/fill.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index c3b06b5..cb1a931 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -154,7 +154,7 @@ func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 func (f *Filler) Fail(err error) {
 	select {
 	case f.errq <- err:
-	case <-f.closeq:
+	default: // already failed
 	}
 }
 
@@ -328,8 +328,13 @@ func (f *Filler) Run() (err error) {
 	select {
 	case err = <-f.errq:
 	case <-done:
-		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
+		// may be failed at the same time
+		select {
+		case err = <-f.errq:
+		default:
+			f.r.IsFull = true // full!
+			_, err = f.c.AddRoot(f.r)
+		}
 	}
 
 	f.Close()
-- 
2.43.0


From f6d42c332745347d6931e1c899f047e1be5fb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 43/83] fix: a filling without limit of subtrees blocks
 forever, and the limit was not held

---
 skyobject/fill.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index cb1a931..177f3a1 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -271,7 +271,9 @@ func (f *Filler) Go(fn func()) {
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+			if f.limit != nil {
+				defer func() { <-f.limit }() // release
+			}
 			fn()
 		}()
 
-- 
2.43.0


From 950a30714b7871479092fecd7f261f789f31007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 44/83] fix: filling of a Root that was added meanwhile
 increments references counters twice

---
 skyobject/fill.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 177f3a1..d73f8b9 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -298,10 +298,14 @@ func (f *Filler) Run() (err error) {
 
 	f.inc(f.r.Hash, 0) // increment
 
+	var alreadyHave bool // added by someone else
+
 	defer func() {
 		if err != nil {
 			f.r.IsFull = false // reset
 			f.reject()
+		} else if alreadyHave == true {
+			f.reject()
 		} else {
 			f.apply()
 		}
@@ -335,7 +339,7 @@ func (f *Filler) Run() (err error) {
 		case err = <-f.errq:
 		default:
 			f.r.IsFull = true // full!
-			_, err = f.c.AddRoot(f.r)
+			alreadyHave, err = f.c.AddRoot(f.r)
 		}
 	}
 
-- 
2.43.0


From ea026a090aa0e36a3a30fd4995fd46740187c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 45/83] fix: a received Root signed by owner of another feed
 was accepted

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..bf5f449 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -260,6 +260,10 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	if r.Pub != pk {
+		return nil, errors.New("Root of another feed: " + r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From e7ffc320fd12cf528f1bf1dccd6caac1353b1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 46/83] fix: AddHead adds a blank head, keeping other heads of
 the feed

---
 skyobject/index.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index bf5f449..76ad4ab 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -34,6 +34,10 @@ func (i *indexHeads) setActive() {
 
 	for nonce, dr := range i.h {
 
+		if dr == nil {
+			continue // blank head
+		}
+
 		if i.activet < dr.Time {
 			i.activet = dr.Time
 			i.activen = nonce
@@ -1039,7 +1043,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
-- 
2.43.0


From 8efec79530cb989cae19eb7af06cfc57189a650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 47/83] fix: last Root and active head of the Index follow
 adding and deleting of Root objects and heads

---
 skyobject/index.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 76ad4ab..1d8c033 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -400,24 +400,20 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
-	if ir != nil && r.Seq < ir.Seq {
+	// add to the Index
+
+	var hs = i.feeds[r.Pub]
+
+	if ir = hs.h[r.Nonce]; ir != nil && r.Seq < ir.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
 		return
 	}
 
-	// add to the Index
-
-	var hs = i.feeds[r.Pub]
-
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -435,11 +431,7 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -716,6 +708,7 @@ func (i *Index) delHead(
 	// delete from the Index
 
 	delete(hs.h, nonce)
+	hs.setActive()
 
 	return
 
@@ -847,8 +840,8 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	// the active head can be changed if the Root was last
+	if removed == true || replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From 538c4038d38885cef58037e74e292324a81bba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 48/83] fix: LastRoot and RootByHash panic if the Root can't be
 loaded

---
 skyobject/container.go | 5 ++++-
 skyobject/index.go     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..f9c1166 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -318,7 +318,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return
+	}
+
 	r.Hash = hash
 	return
 }
diff --git a/skyobject/index.go b/skyobject/index.go
index 1d8c033..915356a 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -558,7 +558,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return nil, err
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From 7c102f35667b51592dc224174a8ac7cbce4b3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 49/83] fix: a Root with a blank reference can't be deleted

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index 915356a..0d22daa 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -887,6 +887,10 @@ func (i *Index) delPackWalkFunc(
 		err error, //          : a DB error
 	) {
 
+		if hash == (cipher.SHA256{}) {
+			return // blank reference
+		}
+
 		var (
 			rc  int
 			val []byte
-- 
2.43.0


From 7ef96bebb7df44ca1eca4c73031df6be2ab5ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 50/83] fix: saving of a Root leaves wrong references counters
 of objects that are used or set many times

---
 skyobject/unpack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..b3be965 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -43,11 +43,11 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
 	if ok == false {
 		ui = new(unpackItem)
+		ui.created = (rc == 1)
 		u.m[key] = ui
 	}
 
 	ui.inc++
-	ui.created = (rc == 1)
 
 	return
 }
@@ -180,7 +180,7 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			// values in CXDS actual
 
 			ui.dec++ // used
-			deepper = ui.created
+			deepper = ui.created && ui.dec == 1
 			return
 
 		})
@@ -227,8 +227,8 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 		var inc = ui.dec - ui.inc
 
-		if inc < 0 {
-			// decrement
+		if inc != 0 {
+			// decrement or increment
 			if _, err = c.Inc(key, inc); err != nil {
 				return // leave the CXDS broken if an error occurred
 			}
-- 
2.43.0


From f5cbe31485de3b80a3d39abd068cafde1d02e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 51/83] fix: a Root can be saved with a key of another feed, or
 changing something if the feed does not exist

---
 skyobject/unpack.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index b3be965..be8e91f 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -111,6 +111,22 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return errors.New("zero Nonce field of the Root")
 	}
 
+	// check out owner
+
+	var pk cipher.PubKey
+	if pk, err = cipher.PubKeyFromSecKey(up.sk); err != nil {
+		return
+	}
+
+	if pk != r.Pub {
+		return errors.New("can't sign the Root: wrong secret key")
+	}
+
+	// check out Index first (has feed)
+	if c.HasFeed(r.Pub) == false {
+		return data.ErrNoSuchFeed
+	}
+
 	// check out Registry
 
 	if rr := up.Registry().Reference(); r.Reg == (registry.RegistryRef{}) {
@@ -193,11 +209,6 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 	// ok, let's save the Root
 
-	// check out Index first (has feed)
-	if c.HasFeed(r.Pub) == false {
-		return data.ErrNoSuchFeed
-	}
-
 	// save into Index and IdxDB
 	var val []byte
 
-- 
2.43.0


From f60b312b28d810da08e817b9ecfd076d8cf49843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 52/83] fix: first Root of a head is saved with seq number
 given by user

---
 skyobject/unpack.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index be8e91f..5db2090 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -295,10 +295,11 @@ func (i *Index) saveRoot(
 		if lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
 			r.Prev = lastHash
+		} else {
+			r.Seq = 0
+			r.Prev = cipher.SHA256{}
 		}
 
-		// else -> 0 and blank
-
 		r.Time = time.Now().UnixNano()
 
 		// hash of the Root
-- 
2.43.0


From 16d4aa629bb598c31a0ea77e16aae2ad180b10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 53/83] fix: statistic of a blank head panics

---
 skyobject/stat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From 2b65fd1e8fa9e6234cb53978fe5f6341e3776c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:07 +0000
Subject: [PATCH 54/83] fix: a Root larger than MaxObjectSize was indexed, but
 not saved

---
 skyobject/unpack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5db2090..c5406fe 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -306,6 +306,11 @@ func (i *Index) saveRoot(
 
 		val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
+
+		if len(val) > i.c.conf.MaxObjectSize {
+			return &ObjectIsTooLargeError{r.Hash}
+		}
+
 		r.IsFull = true
 
 		// sign
-- 
2.43.0


From a75f0cef7afc43565f7c5aa35b25f73a9aa5059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 55/83] fix: saving of a Root that refers to an ownerless
 object doesn't hold subtree of the object

---
 skyobject/unpack.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index c5406fe..d0e74e1 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -174,12 +174,17 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 				// exists in the CXDS, and we have to increment
 				// rc of the object
 
-				if _, err = c.Inc(hash, 1); err != nil {
+				var rc int
+				if rc, err = c.Inc(hash, 1); err != nil {
 					return
 				}
-				up.m[hash] = &unpackItem{inc: 1, dec: 1} // for Close
 
-				return // false, nil
+				// the object can be ownerless before, and
+				// in this case its subtree is ownerless too
+				ui = &unpackItem{inc: 1, dec: 1, created: rc == 1}
+				up.m[hash] = ui // for Close
+
+				return ui.created, nil
 			}
 
 			// here we reduce the ui.inc; if end-user saves an
-- 
2.43.0


From 4706a15dbebd907f87d5529a7abaaec58acbb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 56/83] fix: a filling doesn't end if it fails while waiting
 for the registry

---
 skyobject/fill.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index d73f8b9..efa0f5c 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -30,6 +30,7 @@ type Filler struct {
 
 	closeq chan struct{}
 	closeo sync.Once
+	termo  sync.Once
 }
 
 //
@@ -156,6 +157,14 @@ func (f *Filler) Fail(err error) {
 	case f.errq <- err:
 	default: // already failed
 	}
+	f.terminate() // don't wait for objects anymore
+}
+
+// release all waiting for objects
+func (f *Filler) terminate() {
+	f.termo.Do(func() {
+		close(f.closeq)
+	})
 }
 
 //
@@ -190,7 +199,7 @@ func (f *Filler) requset(key cipher.SHA256) (ok bool) {
 // goroutines the split creates
 func (f *Filler) Close() {
 	f.closeo.Do(func() {
-		close(f.closeq)
+		f.terminate()
 		f.await.Wait()
 	})
 }
@@ -312,6 +321,11 @@ func (f *Filler) Run() (err error) {
 	}()
 
 	if err = f.getRegistry(); err != nil {
+		// may be terminated by the Fail
+		select {
+		case err = <-f.errq:
+		default:
+		}
 		return
 	}
 
-- 
2.43.0


From 876701b7a4cd7904fadd7500933b37b60a5f1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:28 +0000
Subject: [PATCH 57/83] fix: the cache leaves a mark of an object that was
 wanted, but not held, and set by another

---
 skyobject/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 148ab25..fd10ae7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -811,6 +811,12 @@ func (c *Cache) setWanted(
 	it.fc += wincs // incs of fillers (of wanters)
 
 	err = c.putFillingItem(val, int(urc), it)
+
+	// not filling, not regular
+	if it.fc == 0 && len(it.val) == 0 {
+		delete(c.is, key)
+	}
+
 	return
 }
 
-- 
2.43.0


From 7f336b7dd4c926bbddff7e3ac4a51db29a623565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:22 +0000
Subject: [PATCH 58/83] fix: removing of old Root objects counts numbers
 instead of Root objects

---
 cxoutils/cxoutils.go | 76 +++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 501ef27..faccafe 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -37,47 +37,71 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 			return
 		}
 
-	HeadLoop:
 		for _, nonce := range heads {
-			var seq uint64
-			if seq, err = c.LastRootSeq(pk, nonce); err != nil {
-				err = nil // clear
-				continue  // not a real error
-			}
-
-			if seq < uint64(keepLast) {
-				continue
-			}
 
-			var goDown = seq - uint64(keepLast) // positive
+			// the Root objects are not always numbered one by one
+			// (not every Root is received and any can be deleted)
 
-			for ; goDown > 0; goDown-- {
+			var old []uint64
+			if old, err = oldRoots(c, pk, nonce, keepLast); err != nil {
+				if err == data.ErrNoSuchHead || err == data.ErrNoSuchFeed {
+					err = nil // clear
+					continue  // not a real error
+				}
+				return
+			}
 
-				if err = c.DelRoot(pk, nonce, goDown); err != nil {
+			for _, seq := range old {
+				if err = c.DelRoot(pk, nonce, seq); err != nil {
 					if err == data.ErrNotFound {
 						err = nil // clear error
-						continue HeadLoop
+						continue
 					}
 					return // a failure (CXDS not found error?)
 				}
-
 			}
 
-			// seq = 0 (goDown == 0)
-			if err = c.DelRoot(pk, nonce, 0); err != nil {
-				if err == data.ErrNotFound {
-					err = nil // clear error
-					continue HeadLoop
-				}
+		} // head loop
 
-				return
-			}
+	} // feed loop
+
+	return
+}
 
-			// continue HeadLoop
+// oldRoots returns seq numbers of all Root objects
+// of given head except the last ones
+func oldRoots(
+	c *skyobject.Container,
+	pk cipher.PubKey,
+	nonce uint64,
+	keepLast int,
+) (
+	old []uint64,
+	err error,
+) {
+
+	err = c.DB().IdxDB().Tx(func(feeds data.Feeds) (err error) {
+
+		var heads data.Heads
+		if heads, err = feeds.Heads(pk); err != nil {
+			return
+		}
 
-		} // head loop
+		var roots data.Roots
+		if roots, err = heads.Roots(nonce); err != nil {
+			return
+		}
 
-	} // feed loop
+		var n uint64
+
+		return roots.Descend(func(r *data.Root) (_ error) {
+			if n++; n > uint64(keepLast) {
+				old = append(old, r.Seq)
+			}
+			return
+		})
+
+	})
 
 	return
 }
-- 
2.43.0


From 913f09e9436d9054016c449f450e7f91fb739703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:49 +0000
Subject: [PATCH 59/83] fix: result of a request of a finished filling crashes
 a node, or blocks closing of it

---
 node/head.go | 65 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/node/head.go b/node/head.go
index d3b46ad..0a2e640 100644
--- a/node/head.go
+++ b/node/head.go
@@ -92,7 +92,13 @@ func (n *nodeHead) node() *Node {
 	return n.n.fs.n
 }
 
+type succeededRequest struct {
+	c *Conn             // connection
+	f *skyobject.Filler // filler the request was made for
+}
+
 type failedRequest struct {
+	f   *skyobject.Filler // filler the request was made for
 	c   *Conn         // connection
 	seq uint64        // seq of the filling Root
 	key cipher.SHA256 // requested object
@@ -118,8 +124,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -146,13 +152,14 @@ func (n *nodeHead) handle() {
 
 			ff: make(chan error), // filling error or nil (success)
 
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
 		c   *Conn
 		cr  connRoot
+		sc  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -163,9 +170,9 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sc = <-f.successq:
 
-			f.handleSuccess(c)
+			f.handleSuccess(sc)
 
 		case fc = <-f.failureq:
 
@@ -221,11 +228,15 @@ func (f *fillHead) handleRequest(key cipher.SHA256) {
 	f.triggerRequest()
 }
 
-func (f *fillHead) handleSuccess(c *Conn) {
-	f.node().Debugln(FillPin, "[fill] handleSuccess", c.String())
+func (f *fillHead) handleSuccess(sr succeededRequest) {
+	f.node().Debugln(FillPin, "[fill] handleSuccess", sr.c.String())
+
+	if sr.f != f.f {
+		return // the filling, the object was requested for, is finished
+	}
 
 	f.requesting--
-	f.fc.PushBack(c) // push
+	f.fc.PushBack(sr.c) // push
 	f.triggerRequest()
 }
 
@@ -233,8 +244,6 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 	f.node().Debugln(FillPin, "[fill] handleRequestFailure", fr.c.String(),
 		fr.key.Hex()[:7])
 
-	f.requesting--
-
 	switch fr.err {
 	case ErrInvalidResponse:
 
@@ -259,6 +268,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	}
 
+	if fr.f != f.f {
+		return // the filling, the object was requested for, is finished
+	}
+
+	f.requesting--
 	f.rqo.PushFront(fr.key) // shift
 	f.triggerRequest()
 
@@ -381,6 +395,7 @@ func (f *fillHead) closeFiller() {
 	}
 
 	f.f.Close()
+	f.f = nil
 
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
@@ -463,7 +478,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.await.Add(1) // nodeHead.await
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(f.f, c, f.r.r.Seq, key)
 
 	return
 }
@@ -474,7 +489,12 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	fill *skyobject.Filler,
+	c *Conn,
+	seq uint64,
+	key cipher.SHA256,
+) {
 	defer f.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
@@ -483,7 +503,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+		f.requestFailed(failedRequest{fill, c, seq, key, err})
 		return
 	}
 
@@ -492,7 +512,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+			f.requestFailed(failedRequest{fill, c, seq, key, ErrInvalidResponse})
 			return
 		}
 
@@ -502,14 +522,25 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 			return
 		}
 
-		f.successq <- c
+		select {
+		case f.successq <- succeededRequest{c, fill}:
+		case <-f.closeq: // no one waits for the result anymore
+		}
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		f.requestFailed(failedRequest{fill, c, seq, key, ErrInvalidResponse})
 	}
 
 }
 
+// (async)
+func (f *fillHead) requestFailed(fr failedRequest) {
+	select {
+	case f.failureq <- fr:
+	case <-f.closeq: // no one waits for the result anymore
+	}
+}
+
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
 
-- 
2.43.0


From 93d6878594ffe983b15fe1c16b00384a4de15c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:49 +0000
Subject: [PATCH 60/83] fix: known Root objects of peers are not moved forward
 after a filling, so the next Root has no peers to be filled from

---
 node/head.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/node/head.go b/node/head.go
index 0a2e640..aef4a4e 100644
--- a/node/head.go
+++ b/node/head.go
@@ -616,22 +616,16 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
-
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
+		var i int
 
+		for i < len(known) && known[i] < seq {
+			i++
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
-- 
2.43.0


From 2ff4e1eed066be02124ac11c1f6fefd3f53c7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:49 +0000
Subject: [PATCH 61/83] fix: a head and feeds wait each other forever if a Root
 received while the head broadcasts another one

---
 node/head.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node/head.go b/node/head.go
index aef4a4e..470a1ea 100644
--- a/node/head.go
+++ b/node/head.go
@@ -352,8 +352,9 @@ func (f *fillHead) createFiller(cr connRoot) {
 	f.node().Debugln(FillPin, "[fill] createFiller", cr.c.String(),
 		cr.r.Short())
 
-	// broadcast the Root we are going to fill
-	f.nodeHead.n.fs.broadcastRoot(cr)
+	// broadcast the Root we are going to fill; don't wait here,
+	// because the feeds can be waiting for this head
+	go f.nodeHead.n.fs.broadcastRoot(cr)
 
 	f.tp = time.Now() // time point
 
-- 
2.43.0


From 7e6fe8a4231ea75c34f0b755cb2b176acccd4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 62/83] fix: a closed connection is not deleted from feeds and
 heads

---
 node/conn.go  | 1 +
 node/feeds.go | 8 ++++++++
 node/head.go  | 8 --------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 24c1100..1a25192 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -99,6 +99,7 @@ func (c *Conn) run() {
 	c.await.Wait()
 
 	c.n.removeConn(c)
+	c.n.fs.delConn(c)
 
 	// Remove connection from trasnport's cache and close factory.Connection.
 	if c.IsTCP() {
diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..1911079 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -305,6 +305,14 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleAddConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	// the connection can be already closed and deleted
+
+	select {
+	case <-cf.c.closeq:
+		return
+	default:
+	}
+
 	// if the cf.f is blank the this connection is new
 
 	if cf.f == (cipher.PubKey{}) {
diff --git a/node/head.go b/node/head.go
index 470a1ea..3c1b4e4 100644
--- a/node/head.go
+++ b/node/head.go
@@ -545,14 +545,6 @@ func (f *fillHead) requestFailed(fr failedRequest) {
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
 
-	if f.r.c == c {
-		f.r.c = nil // GC
-	}
-
-	if f.p.c == c {
-		f.p.c = nil // GC
-	}
-
 }
 
 func (f *fillHead) terminate() {
-- 
2.43.0


From 06bac86ac89d4cb53245f5cdd91292c081b229bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 63/83] fix: too large object received from a peer terminates
 the process

---
 node/head.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/node/head.go b/node/head.go
index 3c1b4e4..aa3c7ad 100644
--- a/node/head.go
+++ b/node/head.go
@@ -99,10 +99,10 @@ type succeededRequest struct {
 
 type failedRequest struct {
 	f   *skyobject.Filler // filler the request was made for
-	c   *Conn         // connection
-	seq uint64        // seq of the filling Root
-	key cipher.SHA256 // requested object
-	err error         // failed if the err is not nil
+	c   *Conn             // connection
+	seq uint64            // seq of the filling Root
+	key cipher.SHA256     // requested object
+	err error             // failed if the err is not nil
 }
 
 // handle local "fields" of the nodeHead
@@ -519,8 +519,12 @@ func (f *fillHead) request(
 
 		// incremented by the Want call(s)
 		if _, err := f.node().c.SetWanted(key, x.Value); err != nil {
-			f.node().Fatal("DB failure:", err)
-			return
+			// a too large object is not a failure of the DB, and
+			// it breaks the filling only (the filler gets the error)
+			if _, ok := err.(*skyobject.ObjectIsTooLargeError); ok == false {
+				f.node().Fatal("DB failure:", err)
+				return
+			}
 		}
 
 		select {
-- 
2.43.0


From 358bccabe2857a24e6ba7187fddba48d6d15fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 64/83] fix: sending of a message through a closed connection
 can block forever

---
 node/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 1a25192..26f0e7a 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -449,7 +449,11 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	select {
+	case c.sendq <- c.encodeMsg(seq, rseq, m):
+	case <-c.closeq:
+		return ErrClosed
+	}
 
 	return nil
 }
-- 
2.43.0


From b4c0f586d39c7a2c553e00882f7dfd200cc3804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:21 +0000
Subject: [PATCH 65/83] fix: repeated response of a peer blocks receiving and
 closing of the connection

---
 node/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 26f0e7a..1ad63b4 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -510,7 +510,11 @@ func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	rq, ok = c.reqs[rseq]
+	// only one response can be received, otherwise
+	// the second one can block the receiving
+	if rq, ok = c.reqs[rseq]; ok == true {
+		delete(c.reqs, rseq)
+	}
 	return
 }
 
-- 
2.43.0


From d385badae9f757c519ee33c9577b105476713290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:21 +0000
Subject: [PATCH 66/83] fix: info of a head shows seq of wrong Root as pending

---
 node/head.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/head.go b/node/head.go
index aa3c7ad..9416a53 100644
--- a/node/head.go
+++ b/node/head.go
@@ -693,7 +693,7 @@ func (n *nodeHead) handleInfo(f *fillHead) {
 	ni.pendingRoot = (f.p.r != nil)
 
 	if ni.pendingRoot == true {
-		ni.pendingRootSeq = f.r.r.Seq
+		ni.pendingRootSeq = f.p.r.Seq
 	}
 
 	// make copy
-- 
2.43.0


From fb4fcff8d8201a4aede8ba493dfed21751dc59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:48 +0000
Subject: [PATCH 67/83] fix: limit of heads per feed is never applied

---
 node/feed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/feed.go b/node/feed.go
index 6e28e65..7db0f1d 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -77,6 +77,10 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 			delete(n.hs, torm) // remove
 
+		} else {
+
+			n.ho = append(n.ho, cr.r.Nonce)
+
 		}
 
 		nh = newNodeHead(n)
-- 
2.43.0


From a390538c3c3b4770f7423bbe8174254579d6542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:49 +0000
Subject: [PATCH 68/83] fix: OnUnsubscribeRemote callback is never called

---
 node/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 1ad63b4..5c8b8cf 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -709,7 +709,8 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
-	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	c.n.fs.delConnFeed(c, unsub.Feed)      // delete
+	c.n.onUnsubscribeRemote(c, unsub.Feed) // callback
 	return
 }
 
-- 
2.43.0


From 6055709ec94823b154b06c523d77410661f7e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:49 +0000
Subject: [PATCH 69/83] fix: closing of a node, and leaving a swarm, wait under
 lock for those who wait for the lock

---
 node/node.go | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/node/node.go b/node/node.go
index 732e811..783fc53 100644
--- a/node/node.go
+++ b/node/node.go
@@ -673,33 +673,52 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
+
+		// goroutines, the Close waits for, can lock the mutex
+
+		var (
+			ss []*Swarm
+			cs []*Conn
+		)
+
 		n.mx.Lock()
-		defer n.mx.Unlock()
+		for pk, s := range n.ss {
+			ss = append(ss, s)
+			delete(n.ss, pk)
+		}
+		for _, c := range n.pendConns {
+			cs = append(cs, c)
+		}
+		for _, c := range n.addrToConn {
+			cs = append(cs, c)
+		}
+		var tcp, udp = n.tcp, n.udp
+		n.mx.Unlock()
 
 		// Shutdown peer exchange.
-		for _, s := range n.ss {
+		for _, s := range ss {
 			s.shutdown()
 		}
 
 		// Close all connections.
-		for _, c := range n.pendConns {
-			c.Close()
-		}
-		for _, c := range n.pkToConn {
+		for _, c := range cs {
 			c.Close()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.udp != nil {
-			n.udp.Close()
+		if udp != nil {
+			udp.Close()
 		}
 		if n.rpc != nil {
 			n.rpc.Close()
 		}
 
+		// Close feeds and heads, they use the database.
+		n.fs.close()
+
 		// Close database.
 		err = n.c.Close()
 
@@ -731,16 +750,15 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
-	s.shutdown()
-
-	delete(n.ss, feed)
+	s.shutdown() // the swarm can lock the mutex
 
 	return nil
 }
-- 
2.43.0


From 4eb135a7d0ed21db80c6709045fa21653da4f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:29 +0000
Subject: [PATCH 70/83] fix: zero limit of connections refuses all connections
 instead of being turned off

---
 node/node.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/node/node.go b/node/node.go
index 783fc53..1e4623c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -367,23 +368,26 @@ func (n *Node) connCap() int {
 	defer n.mx.Unlock()
 
 	count := len(n.pendConns) + len(n.addrToConn)
-	if count >= n.config.MaxConnections {
-		return 0
-	}
 
-	return n.config.MaxConnections - count
+	return limitCap(n.config.MaxConnections, count)
 }
 
 func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	count := len(n.pendConns)
-	if count >= n.config.MaxPendingConnections {
+	return limitCap(n.config.MaxPendingConnections, len(n.pendConns))
+}
+
+// how many can be added; zero turns the limit off
+func limitCap(limit, count int) int {
+	if limit == 0 {
+		return math.MaxInt32
+	}
+	if count >= limit {
 		return 0
 	}
-
-	return n.config.MaxPendingConnections - count
+	return limit - count
 }
 
 // initConn initializes new connection.
@@ -448,10 +452,11 @@ func (n *Node) onNewConn(
 	defer n.mx.Unlock()
 
 	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
+	if limitCap(n.config.MaxConnections,
+		len(n.pendConns)+len(n.addrToConn)) == 0 {
 		return nil, false, false, ErrConnLimit
 	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
+	if limitCap(n.config.MaxPendingConnections, len(n.pendConns)) == 0 {
 		return nil, false, false, ErrPendConnLimit
 	}
 
-- 
2.43.0


From 080c9931701e7e8a9fa6b9b9c3c4ad04a3775c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 71/83] fix: two connections with the same peer are possible if
 their handshakes are simultaneous

---
 node/node.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 1e4623c..451c26e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -433,7 +433,9 @@ func (n *Node) initConn(
 			return nil, err
 		}
 
-		n.onConnInit(c)
+		if err = n.onConnInit(c); err != nil {
+			return nil, err
+		}
 		go c.run()
 
 		return c, nil
@@ -492,16 +494,24 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 // onConnInit atomically moves pending connection to cache
 // and singals about initConn success. It also chekcs if
 // peer's pubkey, receieved during hanshake is duplicate.
-func (n *Node) onConnInit(c *Conn) {
+func (n *Node) onConnInit(c *Conn) (err error) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
 	delete(n.pendConns, c.Address())
 
+	// another handshake with the peer can be finished in the meanwhile
+	if _, ok := n.pkToConn[c.peerID]; ok == true {
+		c.initErr = ErrAlreadyHaveConnection
+		close(c.initq)
+		return c.initErr
+	}
+
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
 
 	close(c.initq)
+	return
 }
 
 // removeConn reomoves connection from cache.
-- 
2.43.0


From c22382b21f47da2bf37b114b379bc6d54361e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 72/83] fix: a connection that is closed at once stays in its
 transport, and it's impossible to connect again

---
 node/node.go       |  9 +++++++++
 node/transports.go | 16 ++++------------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/node/node.go b/node/node.go
index 451c26e..78b9bc0 100644
--- a/node/node.go
+++ b/node/node.go
@@ -436,6 +436,15 @@ func (n *Node) initConn(
 		if err = n.onConnInit(c); err != nil {
 			return nil, err
 		}
+
+		// add to the transport first, because the run
+		// removes the connection from it in the end
+		if c.IsTCP() {
+			n.tcp.addConn(c)
+		} else {
+			n.udp.addConn(c)
+		}
+
 		go c.run()
 
 		return c, nil
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..867f5e6 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -113,9 +113,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = t.n.initConn(fc, false); err == nil {
-		t.addConn(c)
-	} else {
+	if c, err = t.n.initConn(fc, false); err != nil {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -146,9 +144,7 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		t.addConn(c)
-	} else {
+	if err != nil {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -456,9 +452,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = u.n.initConn(fc, false); err == nil {
-		u.addConn(c)
-	} else {
+	if c, err = u.n.initConn(fc, false); err != nil {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%] closing factory.Connection",
@@ -489,9 +483,7 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		u.addConn(c)
-	} else {
+	if err != nil {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
-- 
2.43.0


From b8284002a25c1e89b0fe941bc14f1af3b5a17044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 73/83] fix: a request numbered zero takes for response any
 message that is not a response

---
 node/conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 5c8b8cf..fc25368 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -421,8 +421,12 @@ func (c *Conn) Close() (err error) {
 	return nil
 }
 
-func (c *Conn) nextSeq() uint32 {
-	return atomic.AddUint32(&c.seq, 1)
+func (c *Conn) nextSeq() (seq uint32) {
+	// the zero is reserved for messages that are not responses
+	if seq = atomic.AddUint32(&c.seq, 1); seq == 0 {
+		seq = atomic.AddUint32(&c.seq, 1)
+	}
+	return
 }
 
 func (c *Conn) encodeMsg(seq, rseq uint32, m msg.Msg) (raw []byte) {
-- 
2.43.0


From 220f91a174c5cf7ed817c622dbabfd654b02b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:00 +0000
Subject: [PATCH 74/83] fix: peers received are added under blank key, and
 known peers are replaced

---
 node/swarm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..8ebb42c 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -325,7 +325,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	// Update existing peers or add new one
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
@@ -341,6 +341,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
-- 
2.43.0


From 0f3cb2f1863ced469197159565f327fa77127336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:01 +0000
Subject: [PATCH 75/83] fix: peers of a wrong feed are added

---
 node/swarm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 8ebb42c..e09bb4c 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -251,8 +251,9 @@ func (s *Swarm) requestPeers() {
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
+				} else {
+					s.addPeers(m.List)
 				}
-				s.addPeers(m.List)
 
 			case *msg.Err:
 				err = errors.New(m.Err)
-- 
2.43.0


From afc1b7ce0ebc9602bfbe9828527518a7fca398fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:01 +0000
Subject: [PATCH 76/83] fix: success of connecting doesn't reset number of
 failures of a peer

---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index e09bb4c..6427e13 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -498,7 +498,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
-- 
2.43.0


From d588a8a3806b224d6667872af1c15474920cf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:02 +0000
Subject: [PATCH 77/83] fix: peers without an address are taken for the node
 itself, if it doesn't listen

---
 node/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 6427e13..b36b6ef 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -354,10 +354,10 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
-- 
2.43.0


From ca601d984444b13a27c8bfea60f85af620d398fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 78/83] fix: leaving a swarm waits for a tick

---
 node/swarm.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index b36b6ef..1db5a84 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -191,10 +191,7 @@ LOOP:
 		select {
 		case <-s.quit:
 			break LOOP
-		default:
-		}
 
-		select {
 		case <-requestPeers:
 			if s.needPeers() {
 				s.requestPeers()
-- 
2.43.0


From c37751cad8c8726feab7aac79c8014cf5d5a799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 79/83] fix: last Root sent to a new subscriber is dropped if
 it's received before the subscription is noted

---
 node/conn.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index fc25368..ecbe461 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -277,6 +277,19 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
+	// the peer can send last Root just after the reply, thus the
+	// connection should share the feed before the reply received
+
+	if c.n.fs.hasConnFeed(c, feed) == false {
+		c.n.fs.addConnFeed(c, feed)
+
+		defer func() {
+			if err != nil {
+				c.n.fs.delConnFeed(c, feed) // rejected
+			}
+		}()
+	}
+
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
@@ -300,7 +313,6 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
-	c.n.fs.addConnFeed(c, feed)
 	c.sendLastRoot(feed)
 	return
 }
-- 
2.43.0


From 22d347fd07eaad46e41955815a95c72307455cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:48 +0000
Subject: [PATCH 80/83] fix: closing of a container leaves a goroutine

---
 skyobject/container.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skyobject/container.go b/skyobject/container.go
index f9c1166..ede7aa0 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -357,6 +357,8 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	c.Index.Close() // terminate goroutine of statistic
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
-- 
2.43.0


From 060534874add17640bf85af23ba88e71917beb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:51 +0000
Subject: [PATCH 81/83] fix: closing of a head waits for responses of peers

---
 node/conn.go | 14 ++++++++++++++
 node/head.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index ecbe461..46db539 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -558,6 +558,17 @@ func (c *Conn) responseTimeout() (rt time.Duration) {
 }
 
 func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
+	return c.sendRequestQuit(m, nil)
+}
+
+// the quit terminates waiting for the response
+func (c *Conn) sendRequestQuit(
+	m msg.Msg,
+	quit <-chan struct{},
+) (
+	reply msg.Msg,
+	err error,
+) {
 
 	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
 
@@ -592,6 +603,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 
 	case <-c.closeq:
 		return nil, ErrClosed
+
+	case <-quit:
+		return nil, ErrClosed
 	}
 
 }
diff --git a/node/head.go b/node/head.go
index 9416a53..91235b3 100644
--- a/node/head.go
+++ b/node/head.go
@@ -501,7 +501,7 @@ func (f *fillHead) request(
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
 		key.Hex()[:7])
 
-	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
+	var reply, err = c.sendRequestQuit(&msg.RqObject{Key: key}, f.closeq)
 
 	if err != nil {
 		f.requestFailed(failedRequest{fill, c, seq, key, err})
-- 
2.43.0


From 1906513ad08959a385ce4b48474d80ed688d28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 82/83] fix: cleaning up of objects blocks forever if the cache
 is used at the same time

IterateDel holds lock of the DB, and the callback waits lock of the cache,
while the cache waits the DB under its lock.
---
 cxoutils/cxoutils.go | 10 +---------
 skyobject/cache.go   | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index faccafe..b1f24d3 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -108,15 +108,7 @@ func oldRoots(
 
 // RemoveObjects with rc == 0 from CXDS
 func RemoveObjects(c *skyobject.Container) (err error) {
-
-	var db = c.DB().CXDS()
-
-	err = db.IterateDel(
-		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
-			return (rc == 0) && (c.IsCached(key) == false), nil
-		})
-
-	return
+	return c.RemoveOwnerless()
 }
 
 // TODO (kostyarin): RemoveObjects with "down to" or "timeout" feature
diff --git a/skyobject/cache.go b/skyobject/cache.go
index fd10ae7..61e44d9 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -701,6 +701,22 @@ func (c *Cache) IsCached(key cipher.SHA256) (yep bool) {
 	return
 }
 
+// RemoveOwnerless removes from DB all objects with zero
+// references counter, except cached ones. The cache and
+// the DB are locked in the same order as everywhere, thus
+// it's safe to call it while the cache is used by others
+func (c *Cache) RemoveOwnerless() (err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	return c.db().IterateDel(
+		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
+			var _, cached = c.is[key]
+			return (rc == 0) && (cached == false), nil
+		})
+}
+
 // Get from cache or DB, increasing, leaving as is, or
 // reducing references counter. For most reading cases
 // the inc argument should be zero. If value doesn't
-- 
2.43.0


From 6e24aa3d6c4918963ab1f200cb541821100463c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 83/83] fix: statistic of a store with 4 GiB and more is
 truncated if the store is opened again

---
 data/cxds/cxds.go  | 21 +++++++++++++++++++++
 data/cxds/drive.go | 16 ++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index 7f58c64..a7227e7 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -12,6 +12,7 @@ package cxds
 import (
 	"encoding/binary"
 	"errors"
+	"math"
 
 	"github.com/skycoin/skycoin/src/cipher"
 )
@@ -64,6 +65,26 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
+// a volume takes 4 bytes if it fits, otherwise 8
+func encodeVolume(vol int) (vb []byte) {
+	if uint64(vol) <= math.MaxUint32 {
+		return encodeUint32(uint32(vol))
+	}
+	vb = make([]byte, 8)
+	binary.BigEndian.PutUint64(vb, uint64(vol))
+	return
+}
+
+func decodeVolume(vb []byte) (vol int, err error) {
+	switch len(vb) {
+	case 4:
+		return int(decodeUint32(vb)), nil
+	case 8:
+		return int(binary.BigEndian.Uint64(vb)), nil
+	}
+	return 0, ErrWrongValueLength
+}
+
 // increment slice, it returns false on overflow
 func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 743106e..c183f7a 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -175,20 +175,16 @@ func (d *driveCXDS) loadStat() (err error) {
 
 		// volume all
 
-		if val = info.Get(volumeAllKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeAll, err = decodeVolume(info.Get(volumeAllKey)); err != nil {
+			return
 		}
 
-		d.volumeAll = int(decodeUint32(val))
-
 		// volume used
 
-		if val = info.Get(volumeUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeUsed, err = decodeVolume(info.Get(volumeUsedKey)); err != nil {
+			return
 		}
 
-		d.volumeUsed = int(decodeUint32(val))
-
 		return
 
 	})
@@ -222,7 +218,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// volume all
 
-		err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
+		err = info.Put(volumeAllKey, encodeVolume(d.volumeAll))
 
 		if err != nil {
 			return
@@ -230,7 +226,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// volume used
 
-		err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+		err = info.Put(volumeUsedKey, encodeVolume(d.volumeUsed))
 		return
 
 	})
-- 
2.43.0

