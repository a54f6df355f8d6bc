From 4b571733765b4b831c7aa9b62a2c40c400741e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 01/40] fix: restore the position when TestAny fails

---
 vm/vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..b8f957d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -237,6 +237,7 @@ loop:
 				st.pushBacktrack(ent)
 				ip += szTestAny
 			} else {
+				src.SeekTo(ent.off)
 				ip = int(lbl)
 			}
 		case opCaptureBegin:
-- 
2.43.0


From d7034012d8efacbb905439cc8106d806a9923e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 02/40] fix: let Advance skip across the end of the read
 buffer, and skip nothing anywhere

---
 input/input.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/input/input.go b/input/input.go
index 909ed37..6dee2c8 100644
--- a/input/input.go
+++ b/input/input.go
@@ -89,15 +89,26 @@ func (i *Input) SeekTo(pos int) bool {
 // that even if Advance returns true the next call to Peek may return false if
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
+	if n == 0 {
+		return true
+	}
 	if i.nchunk == 0 {
 		return false
 	}
 
 	i.coff += n
 	if i.coff > i.nchunk {
-		i.refill(i.base + i.coff)
-		return false
-	} else if i.coff == i.nchunk {
+		// The skip leaves the current chunk: it succeeds if the last skipped
+		// byte exists.
+		pos := i.base + i.coff
+		i.refill(pos - 1)
+		if i.nchunk == 0 {
+			i.refill(pos)
+			return false
+		}
+		i.coff = 1
+	}
+	if i.coff == i.nchunk {
 		i.refill(i.base + i.coff)
 	}
 	return true
-- 
2.43.0


From c0b608f80874ec3a582638052d3c0ad9a9aee0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 03/40] fix: count bytes skipped by Advance as examined

---
 input/input.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/input/input.go b/input/input.go
index 6dee2c8..cf0e3ef 100644
--- a/input/input.go
+++ b/input/input.go
@@ -43,14 +43,18 @@ func (i *Input) refill(pos int) {
 	i.nchunk, _ = i.r.ReadAt(i.chunk[:], int64(i.base))
 }
 
+// examine records that the byte at pos (or its absence) has been observed.
+func (i *Input) examine(pos int) {
+	if pos > i.furthest {
+		i.furthest = pos
+	}
+}
+
 // Peek returns the next byte in the stream or 'false' if there are no more
 // bytes. Successive calls to Peek will return the same value unless there is a
 // call to SeekTo or Advance in between.
 func (i *Input) Peek() (byte, bool) {
-	pos := i.base + i.coff
-	if pos > i.furthest {
-		i.furthest = pos
-	}
+	i.examine(i.base + i.coff)
 
 	return i.chunk[i.coff], i.nchunk != 0
 }
@@ -92,6 +96,8 @@ func (i *Input) Advance(n int) bool {
 	if n == 0 {
 		return true
 	}
+	// whether the skip succeeds depends on the last byte skipped.
+	i.examine(i.base + i.coff + n - 1)
 	if i.nchunk == 0 {
 		return false
 	}
-- 
2.43.0


From c40e03561d2ad8b2a1ff72fedcebdb7a4a3c12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 04/40] fix: a reused memo result extends what its enclosing
 results examined

---
 input/input.go | 8 ++++----
 vm/vm.go       | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/input/input.go b/input/input.go
index cf0e3ef..aeaa679 100644
--- a/input/input.go
+++ b/input/input.go
@@ -43,8 +43,8 @@ func (i *Input) refill(pos int) {
 	i.nchunk, _ = i.r.ReadAt(i.chunk[:], int64(i.base))
 }
 
-// examine records that the byte at pos (or its absence) has been observed.
-func (i *Input) examine(pos int) {
+// Examine records that the byte at pos (or its absence) has been observed.
+func (i *Input) Examine(pos int) {
 	if pos > i.furthest {
 		i.furthest = pos
 	}
@@ -54,7 +54,7 @@ func (i *Input) examine(pos int) {
 // bytes. Successive calls to Peek will return the same value unless there is a
 // call to SeekTo or Advance in between.
 func (i *Input) Peek() (byte, bool) {
-	i.examine(i.base + i.coff)
+	i.Examine(i.base + i.coff)
 
 	return i.chunk[i.coff], i.nchunk != 0
 }
@@ -97,7 +97,7 @@ func (i *Input) Advance(n int) bool {
 		return true
 	}
 	// whether the skip succeeds depends on the last byte skipped.
-	i.examine(i.base + i.coff + n - 1)
+	i.Examine(i.base + i.coff + n - 1)
 	if i.nchunk == 0 {
 		return false
 	}
diff --git a/vm/vm.go b/vm/vm.go
index b8f957d..3e31c18 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -293,6 +293,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// reusing the result depends on everything that was examined
+				// to determine it.
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -324,6 +327,9 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// reusing the result depends on everything that was examined
+				// to determine it.
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From df2786b6be406e3e5f6eed521b8d7eefd1dc32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/40] fix: do not let captures appended to one result
 overwrite another's

---
 vm/stack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/stack.go b/vm/stack.go
index 9bd0352..95e9076 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -58,7 +58,9 @@ func (se *stackEntry) addCapt(capt []*memo.Capture) {
 		return
 	}
 	if len(se.capt) == 0 {
-		se.capt = capt
+		// capt may be shared with memoized results: limit the capacity so that
+		// appending to se.capt never writes into its backing array.
+		se.capt = capt[:len(capt):len(capt)]
 	} else {
 		se.capt = append(se.capt, capt...)
 	}
-- 
2.43.0


From bba9f2c64d84ee1aadab07bb6b0c0d31fc416a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/40] fix: keep the successor's intervals when removing a
 tree node with two children

---
 memo/interval/lazylog/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..2e45a7b 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -209,7 +209,7 @@ func (n *node) remove(key key) *node {
 			rightMinNode := n.right.findSmallest()
 
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From fa5ad1d058e3ba1889c90d718a8beb156da88389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 07/40] fix: Size counts intervals, not tree nodes

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..2bd0b97 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -324,7 +324,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 2e45a7b..66d5c3a 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -313,7 +313,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From f160df45ad75c42d09de8e4ce92ff9ae0e6916dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 08/40] fix: take the lock of a TreeTable when counting and
 listing its entries

---
 memo/tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..4dc391f 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -60,8 +60,17 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 	t.lock.Unlock()
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
-- 
2.43.0


From 75ae61953bfa419a3b33132d9d01a51150597d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 09/40] fix: take the lock of a TreeTable when reading an
 entry's position

---
 memo/capture.go |  8 +++++---
 memo/entry.go   |  5 +++--
 memo/tree.go    | 18 +++++++++++++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/memo/capture.go b/memo/capture.go
index 039229a..8f1292c 100644
--- a/memo/capture.go
+++ b/memo/capture.go
@@ -115,16 +115,18 @@ func (c *Capture) Id() int {
 	return int(c.id)
 }
 
-func (c *Capture) setMEnt(e *Entry) {
+// setMEnt makes the offset of this capture relative to the entry e, which
+// currently starts at start.
+func (c *Capture) setMEnt(e *Entry, start int) {
 	if c.ment != nil {
 		return
 	}
 
 	c.ment = e
-	c.off = c.off - e.pos.Pos()
+	c.off = c.off - start
 
 	for _, c := range c.children {
-		c.setMEnt(e)
+		c.setMEnt(e, start)
 	}
 }
 
diff --git a/memo/entry.go b/memo/entry.go
index 913bb12..1d102c6 100644
--- a/memo/entry.go
+++ b/memo/entry.go
@@ -17,10 +17,11 @@ type Entry struct {
 	pos      interval.Pos
 }
 
-func (e *Entry) setPos(pos interval.Pos) {
+// setPos makes pos, which currently is at start, the position of this entry.
+func (e *Entry) setPos(pos interval.Pos, start int) {
 	e.pos = pos
 	for i := range e.captures {
-		e.captures[i].setMEnt(e)
+		e.captures[i].setMEnt(e, start)
 	}
 }
 
diff --git a/memo/tree.go b/memo/tree.go
index 4dc391f..7801b81 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -15,6 +15,19 @@ type TreeTable struct {
 	lock      sync.Mutex
 }
 
+// A lockedPos is a position within a table. Reading it may apply pending shifts
+// to the table, so it needs the lock of the table.
+type lockedPos struct {
+	pos  interval.Pos
+	lock *sync.Mutex
+}
+
+func (p lockedPos) Pos() int {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	return p.pos.Pos()
+}
+
 func NewTreeTable(threshold int) *TreeTable {
 	return &TreeTable{
 		Map:       &lazylog.Tree{},
@@ -44,7 +57,10 @@ func (t *TreeTable) Put(id, start, length, examined, count int, captures []*Capt
 		captures: captures,
 	}
 	t.lock.Lock()
-	e.setPos(t.Map.Add(id, start, start+examined, e))
+	e.setPos(lockedPos{
+		pos:  t.Map.Add(id, start, start+examined, e),
+		lock: &t.lock,
+	}, start)
 	t.lock.Unlock()
 }
 
-- 
2.43.0


From 0b1328bcae1ce7fed9b707fbc0a56992090e2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 10/40] fix: do not memoize results that reported errors

---
 vm/stack.go |  2 ++
 vm/vm.go    | 36 ++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/vm/stack.go b/vm/stack.go
index 95e9076..ea24aea 100644
--- a/vm/stack.go
+++ b/vm/stack.go
@@ -77,6 +77,8 @@ type stackMemo struct {
 	id    int16
 	pos   int
 	count int
+	// number of errors reported when the entry was pushed
+	nerrs int
 }
 
 func newStack() *stack {
diff --git a/vm/vm.go b/vm/vm.go
index 3e31c18..4c9296e 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -72,17 +72,22 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		})
 	}
 
-	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
+	success := true
+	var errs []ParseError = nil
+
+	memoize := func(m stackMemo, mlen, count int, capt []*memo.Capture) {
+		if len(errs) != m.nerrs {
+			// Errors are not part of a memoized result, so a result that
+			// reported some must be parsed again.
+			return
+		}
 		if intrvl != nil {
 			capt = nil
 		}
-		mexam := max(src.Furthest(), src.Pos()) - pos + 1
-		memtbl.Put(id, pos, mlen, mexam, count, capt)
+		mexam := max(src.Furthest(), src.Pos()) - m.pos + 1
+		memtbl.Put(int(m.id), m.pos, mlen, mexam, count, capt)
 	}
 
-	success := true
-	var errs []ParseError = nil
-
 loop:
 	for {
 		op := idata[ip]
@@ -307,8 +312,9 @@ loop:
 				ip = int(lbl)
 			} else {
 				st.pushMemo(stackMemo{
-					id:  id,
-					pos: src.Pos(),
+					id:    id,
+					pos:   src.Pos(),
+					nerrs: len(errs),
 				})
 				ip += szMemoOpen
 			}
@@ -316,7 +322,7 @@ loop:
 			ent := st.pop(true)
 			if ent != nil && ent.stype == stMemo {
 				mlen := src.Pos() - ent.memo.pos
-				memoize(int(ent.memo.id), ent.memo.pos, mlen, 1, ent.capt)
+				memoize(ent.memo, mlen, 1, ent.capt)
 			} else {
 				panic("memo close failed")
 			}
@@ -337,6 +343,7 @@ loop:
 					id:    id,
 					pos:   src.Pos(),
 					count: ment.Count(),
+					nerrs: len(errs),
 				})
 				capt := ment.Captures()
 				if capt != nil {
@@ -347,8 +354,9 @@ loop:
 				ip = int(lbl)
 			} else {
 				st.pushMemoTree(stackMemo{
-					id:  id,
-					pos: src.Pos(),
+					id:    id,
+					pos:   src.Pos(),
+					nerrs: len(errs),
 				})
 				ip += szMemoTreeOpen
 			}
@@ -365,7 +373,7 @@ loop:
 			}
 			mlen := src.Pos() - ent.memo.pos
 			ent.memo.count++
-			memoize(int(ent.memo.id), ent.memo.pos, mlen, ent.memo.count, ent.capt)
+			memoize(ent.memo, mlen, ent.memo.count, ent.capt)
 			ip += szMemoTreeInsert
 		case opMemoTree:
 			seen := 0
@@ -399,7 +407,7 @@ loop:
 
 				next.memo.count = accum + next.memo.count
 				mlen := src.Pos() - next.memo.pos
-				memoize(int(next.memo.id), next.memo.pos, mlen, next.memo.count, next.capt)
+				memoize(next.memo, mlen, next.memo.count, next.capt)
 
 				accum = 0
 				seen = 0
@@ -465,7 +473,7 @@ fail:
 		ent.capt = nil
 	case stMemo:
 		// Mark this position in the memoTable as a failed match
-		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
+		memoize(ent.memo, -1, 0, nil)
 		ent.capt = nil
 		goto fail
 	case stRet, stCapt, stCheck:
-- 
2.43.0


From 8c853db40891564644a30a3e2d0905fe75e07099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 11/40] fix: do not lose captures when an interval parse
 revisits a memoized result

---
 vm/vm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 4c9296e..116fe38 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -81,8 +81,10 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 			// reported some must be parsed again.
 			return
 		}
-		if intrvl != nil {
-			capt = nil
+		if intrvl != nil && len(capt) > 0 {
+			// Interval parses memoize no captures, so a result with
+			// captures in the interval must be parsed again.
+			return
 		}
 		mexam := max(src.Furthest(), src.Pos()) - m.pos + 1
 		memtbl.Put(int(m.id), m.pos, mlen, mexam, count, capt)
-- 
2.43.0


From 696848ec3fba3ed01d554e266805c20cea81cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 12/40] fix: a failure drops memo tree entries from the stack

---
 vm/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 116fe38..a8dcd49 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -478,7 +478,7 @@ fail:
 		memoize(ent.memo, -1, 0, nil)
 		ent.capt = nil
 		goto fail
-	case stRet, stCapt, stCheck:
+	case stRet, stCapt, stCheck, stMemoTree:
 		ent.capt = nil
 		goto fail
 	}
-- 
2.43.0


From a852df19f1b00c817dd512b17cdfa31afcd713cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 13/40] fix: an empty class in a textual PEG is the empty set,
 not a nil pattern

---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..77d80f1 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From c292b51379b25bf43ac1432bb2e332bdd520b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 14/40] fix: octal escapes above 127 in a textual PEG

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 77d80f1..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -144,7 +144,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From 542f947352137372d74fdb470e8585a2c12e35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 15/40] fix: reject the unimplemented single braces of textual
 PEGs instead of yielding a nil pattern

---
 re/grammar.go | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/re/grammar.go b/re/grammar.go
index 5466a70..d501239 100644
--- a/re/grammar.go
+++ b/re/grammar.go
@@ -17,7 +17,6 @@ import (
 // 			/ '(' Expression ')'
 // 			/ Literal / Class
 // 			/ BRACEPO Expression BRACEPC
-// 			/ BRACEO Expression BRACEC
 // 			/ DOT
 //
 // Identifier <- IdentStart IdentCont* Spacing_
@@ -40,8 +39,6 @@ import (
 // PLUS       <- '+' Spacing_
 // DOT        <- '.' Spacing_
 // CARAT      <- '^' Spacing_
-// BRACEO     <- '{' Spacing_
-// BRACEC     <- '}' Spacing_
 // BRACEPO    <- '{{' Spacing_
 // BRACEPC    <- '}}' Spacing_
 // LEFTARROW  <- '<-' Spacing_
@@ -79,7 +76,6 @@ const (
 	idDOT
 	idCARAT
 	idOPEN
-	idBRACEO
 	idBRACEPO
 )
 
@@ -137,11 +133,6 @@ var grammar = map[string]p.Pattern{
 			p.NonTerm("Expression"),
 			p.NonTerm("BRACEPC"),
 		),
-		p.Concat(
-			p.NonTerm("BRACEO"),
-			p.NonTerm("Expression"),
-			p.NonTerm("BRACEC"),
-		),
 		p.NonTerm("Literal"),
 		p.NonTerm("Class"),
 		p.NonTerm("DOT"),
@@ -258,14 +249,6 @@ var grammar = map[string]p.Pattern{
 		p.Literal(")"),
 		p.NonTerm("Spacing"),
 	),
-	"BRACEO": p.Cap(p.Concat(
-		p.Literal("{"),
-		p.NonTerm("Spacing"),
-	), idBRACEO),
-	"BRACEC": p.Concat(
-		p.Literal("}"),
-		p.NonTerm("Spacing"),
-	),
 	"BRACEPO": p.Cap(p.Concat(
 		p.Literal("{{"),
 		p.NonTerm("Spacing"),
-- 
2.43.0


From 8bac195222adeea5d8c42d50c230a6b93622d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 16/40] fix: resolve non-terminals in enclosing grammars, and
 report every unknown one when compiling

---
 pattern/compile.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..a54b31a 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -24,6 +24,15 @@ func Compile(p Pattern) (isa.Program, error) {
 		return nil, err
 	}
 
+	// any reference that no grammar has resolved is to an unknown non-terminal.
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
+
 	Optimize(c)
 	return c, nil
 }
@@ -380,8 +389,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		})
 	}
 
-	if len(used) == 0 {
-		return p.Defs[p.Start].Compile()
+	if start, ok := p.Defs[p.Start]; ok && len(used) == 0 {
+		return start.Compile()
 	}
 
 	code := make(isa.Program, 0)
@@ -410,9 +419,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// leave this call to be resolved by an enclosing grammar
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
-- 
2.43.0


From 4e36ccb1ac3dfff1c9f0b029e7e7a5a20cc5ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 17/40] fix: a search does not capture references to a rule
 named S

---
 pattern/compile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index a54b31a..da5d11a 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -324,6 +324,10 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 	return code, err
 }
 
+// searchName is the non-terminal used to compile searches. It must not be the
+// name of a non-terminal that the pattern searched for refers to.
+const searchName = "\x00search"
+
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
 	var rsearch Pattern
@@ -354,13 +358,13 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 	}
 
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
+		rsearch = Concat(Star(Set(set)), NonTerm(searchName))
 	} else {
-		rsearch = NonTerm("S")
+		rsearch = NonTerm(searchName)
 	}
 
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
+	return Grammar(searchName, map[string]Pattern{
+		searchName: Or(Get(p.Patt), Concat(Any(1), rsearch)),
 	}).Compile()
 }
 
-- 
2.43.0


From 86fa243ad848c26f4f9a92bd8764f5dbbf725ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 18/40] fix: do not inline a definition where a nested grammar
 hides it

---
 pattern/nodes.go    | 49 +++++++++++++++++++++++++++------------------
 pattern/optimize.go | 29 ++++++++++++++++++++++-----
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/pattern/nodes.go b/pattern/nodes.go
index 44613ad..9cb8c5b 100644
--- a/pattern/nodes.go
+++ b/pattern/nodes.go
@@ -140,40 +140,51 @@ func CountSubPatterns(p Pattern) int {
 // is true, WalkPattern will walk over inlined patterns as well.
 func WalkPattern(p Pattern, followInline bool, fn WalkFunc) {
 	fn(p)
+	switch t := p.(type) {
+	case *NonTermNode:
+		if t.Inlined != nil && followInline {
+			WalkPattern(t.Inlined, followInline, fn)
+		}
+	default:
+		eachChild(p, func(sub Pattern) {
+			WalkPattern(sub, followInline, fn)
+		})
+	}
+}
+
+// eachChild calls fn for the direct subpatterns of p. The subpatterns of a
+// grammar are its definitions, and a non-terminal has none.
+func eachChild(p Pattern, fn func(sub Pattern)) {
 	switch t := p.(type) {
 	case *AltNode:
-		WalkPattern(t.Left, followInline, fn)
-		WalkPattern(t.Right, followInline, fn)
+		fn(t.Left)
+		fn(t.Right)
 	case *SeqNode:
-		WalkPattern(t.Left, followInline, fn)
-		WalkPattern(t.Right, followInline, fn)
+		fn(t.Left)
+		fn(t.Right)
 	case *StarNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *PlusNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *OptionalNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *NotNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *AndNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *CapNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *MemoNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *SearchNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *CheckNode:
-		WalkPattern(t.Patt, followInline, fn)
+		fn(t.Patt)
 	case *ErrorNode:
-		WalkPattern(t.Recover, followInline, fn)
+		fn(t.Recover)
 	case *GrammarNode:
 		for _, p := range t.Defs {
-			WalkPattern(p, followInline, fn)
-		}
-	case *NonTermNode:
-		if t.Inlined != nil && followInline {
-			WalkPattern(t.Inlined, followInline, fn)
+			fn(p)
 		}
 	}
 }
diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..13a647f 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -121,19 +121,38 @@ func (p *GrammarNode) inline() bool {
 	}
 
 	didInline := false
-	WalkPattern(p, true, func(sub Pattern) {
+	var walk func(p Pattern, defs map[string]Pattern)
+	walk = func(sub Pattern, defs map[string]Pattern) {
 		switch t := sub.(type) {
+		case *GrammarNode:
+			// A nested grammar hides the definitions that it redefines.
+			visible := make(map[string]Pattern)
+			for n, def := range defs {
+				if _, hidden := t.Defs[n]; !hidden {
+					visible[n] = def
+				}
+			}
+			for _, def := range t.Defs {
+				walk(def, visible)
+			}
 		case *NonTermNode:
-			if sz, ok := sizes[t.Name]; ok && t.Inlined == nil {
+			if def, ok := defs[t.Name]; ok && t.Inlined == nil {
 				// We only inline nodes if they are small enough and don't use
 				// any non-terminals themselves.
-				if sz < InlineThreshold && leaves[t.Name] {
+				if sizes[t.Name] < InlineThreshold && leaves[t.Name] {
 					didInline = true
-					t.Inlined = p.Defs[t.Name]
+					t.Inlined = def
 				}
 			}
+		default:
+			eachChild(sub, func(child Pattern) {
+				walk(child, defs)
+			})
 		}
-	})
+	}
+	for _, def := range p.Defs {
+		walk(def, p.Defs)
+	}
 	return didInline
 }
 
-- 
2.43.0


From b6ffa08b7b64fdab21ab405ce2f6bf82aaf043dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 19/40] fix: compiling a grammar does not change the patterns
 it is made of

---
 pattern/compile.go |  3 +++
 pattern/nodes.go   | 43 +++++++++++++++++++++++++++++++++++++++++++
 pattern/string.go  |  1 +
 3 files changed, 47 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index da5d11a..1a0b5bf 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -379,6 +379,9 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	// Inlining marks the references in a grammar. The patterns may also be in
+	// use elsewhere, where the same references mean something else.
+	p = clone(p).(*GrammarNode)
 	p.Inline()
 
 	used := make(map[string]bool)
diff --git a/pattern/nodes.go b/pattern/nodes.go
index 9cb8c5b..6389af5 100644
--- a/pattern/nodes.go
+++ b/pattern/nodes.go
@@ -188,3 +188,46 @@ func eachChild(p Pattern, fn func(sub Pattern)) {
 		}
 	}
 }
+
+// clone returns a copy of p that shares no references to non-terminals with p.
+// Patterns that have been inlined are not copied.
+func clone(p Pattern) Pattern {
+	switch t := p.(type) {
+	case *AltNode:
+		return &AltNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *SeqNode:
+		return &SeqNode{Left: clone(t.Left), Right: clone(t.Right)}
+	case *StarNode:
+		return &StarNode{Patt: clone(t.Patt)}
+	case *PlusNode:
+		return &PlusNode{Patt: clone(t.Patt)}
+	case *OptionalNode:
+		return &OptionalNode{Patt: clone(t.Patt)}
+	case *NotNode:
+		return &NotNode{Patt: clone(t.Patt)}
+	case *AndNode:
+		return &AndNode{Patt: clone(t.Patt)}
+	case *CapNode:
+		return &CapNode{Patt: clone(t.Patt), Id: t.Id}
+	case *MemoNode:
+		return &MemoNode{Patt: clone(t.Patt), Id: t.Id}
+	case *SearchNode:
+		return &SearchNode{Patt: clone(t.Patt)}
+	case *CheckNode:
+		c := *t
+		c.Patt = clone(t.Patt)
+		return &c
+	case *ErrorNode:
+		return &ErrorNode{Message: t.Message, Recover: clone(t.Recover)}
+	case *GrammarNode:
+		defs := make(map[string]Pattern, len(t.Defs))
+		for name, def := range t.Defs {
+			defs[name] = clone(def)
+		}
+		return &GrammarNode{Defs: defs, Start: t.Start}
+	case *NonTermNode:
+		c := *t
+		return &c
+	}
+	return p
+}
diff --git a/pattern/string.go b/pattern/string.go
index 6acbe68..222981b 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -43,6 +43,7 @@ func Prettify(p Pattern) string {
 		return fmt.Sprintf("empty(%v)", t.Op)
 	case *GrammarNode:
 		s := fmt.Sprintf("%s\n", t.Start)
+		t = clone(t).(*GrammarNode)
 		t.Inline()
 		for name, patt := range t.Defs {
 			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
-- 
2.43.0


From e7f457ce9ab4f44ba18480d25cf3321adccd8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 20/40] fix: patterns may be built and compiled concurrently

---
 isa/isa.go         |  6 +++---
 pattern/compile.go |  6 +++---
 pattern/pattern.go | 20 +++++++++++++++++---
 rxconv/rxconv.go   |  6 +++---
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/isa/isa.go b/isa/isa.go
index 80f4952..4f0b5f4 100644
--- a/isa/isa.go
+++ b/isa/isa.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 )
@@ -37,7 +38,7 @@ type JumpType interface {
 	jumpt()
 }
 
-var uniqId int
+var uniqId int64
 
 // Label is used for marking a location in the instruction code with
 // a unique ID
@@ -48,9 +49,8 @@ type Label struct {
 
 // NewLabel returns a new label with a unique ID
 func NewLabel() Label {
-	uniqId++
 	return Label{
-		Id: uniqId,
+		Id: int(atomic.AddInt64(&uniqId, 1)),
 	}
 }
 
diff --git a/pattern/compile.go b/pattern/compile.go
index 1a0b5bf..141c110 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -153,10 +153,10 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		L2 := isa.NewLabel()
 		L3 := isa.NewLabel()
 		NoJump := isa.NewLabel()
-		memoId++
+		id := nextMemoId()
 
 		code = append(code, L1)
-		code = append(code, isa.MemoTreeOpen{Id: memoId, Lbl: L3})
+		code = append(code, isa.MemoTreeOpen{Id: id, Lbl: L3})
 		code = append(code, isa.Choice{Lbl: L2})
 		code = append(code, sub...)
 		code = append(code, isa.Commit{Lbl: NoJump})
@@ -166,7 +166,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		code = append(code, isa.MemoTree{})
 		code = append(code, isa.Jump{Lbl: L1})
 		code = append(code, L2)
-		code = append(code, isa.MemoTreeClose{Id: memoId})
+		code = append(code, isa.MemoTreeClose{Id: id})
 		return code, err
 	}
 
diff --git a/pattern/pattern.go b/pattern/pattern.go
index 7cd1a8a..82b0bfc 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -4,6 +4,7 @@ package pattern
 
 import (
 	"regexp/syntax"
+	"sync"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -34,7 +35,19 @@ func CheckFlags(p Pattern, c isa.Checker, id, flag int) Pattern {
 	}
 }
 
-var memoId = 0
+var (
+	memoId   = 0
+	memoLock sync.Mutex
+)
+
+// nextMemoId returns a memoization ID that is not used by any other pattern.
+func nextMemoId() int {
+	memoLock.Lock()
+	defer memoLock.Unlock()
+	id := memoId
+	memoId++
+	return id
+}
 
 // MemoId marks a pattern as memoizable with a particular ID.
 func MemoId(p Pattern, id int) Pattern {
@@ -42,7 +55,9 @@ func MemoId(p Pattern, id int) Pattern {
 		Patt: p,
 		Id:   id,
 	}
+	memoLock.Lock()
 	memoId = max(memoId, id) + 1
+	memoLock.Unlock()
 	return m
 }
 
@@ -50,9 +65,8 @@ func MemoId(p Pattern, id int) Pattern {
 func Memo(p Pattern) Pattern {
 	m := &MemoNode{
 		Patt: p,
-		Id:   memoId,
+		Id:   nextMemoId(),
 	}
-	memoId++
 	return m
 }
 
diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..8219b8d 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,16 +6,16 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
 )
 
-var num = 0
+var num int64
 
 func uniq() string {
-	num++
-	return "a" + strconv.Itoa(num)
+	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
 func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
-- 
2.43.0


From a32dca5238098608bf1fdb65c3dee480839e08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 21/40] fix: automatic memo ids stay within the range programs
 can encode

---
 pattern/pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pattern/pattern.go b/pattern/pattern.go
index 82b0bfc..5dd1deb 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -3,6 +3,7 @@
 package pattern
 
 import (
+	"math"
 	"regexp/syntax"
 	"sync"
 
@@ -41,9 +42,13 @@ var (
 )
 
 // nextMemoId returns a memoization ID that is not used by any other pattern.
+// IDs have 16 bits, so they are eventually reused.
 func nextMemoId() int {
 	memoLock.Lock()
 	defer memoLock.Unlock()
+	if memoId > math.MaxInt16 {
+		memoId = math.MinInt16
+	}
 	id := memoId
 	memoId++
 	return id
-- 
2.43.0


From 176f5a73442cbb82180c2f5357240ae4dba2ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 22/40] fix: convert lazy regexp operators as lazy

---
 rxconv/rxconv.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 8219b8d..2e835f8 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -18,10 +18,18 @@ func uniq() string {
 	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+// choice tries more before less, or after it if it belongs to a lazy operator.
+func choice(e *syntax.Regexp, more, less p.Pattern) p.Pattern {
+	if e.Flags&syntax.NonGreedy != 0 {
+		return p.Or(less, more)
+	}
+	return p.Or(more, less)
+}
+
+func star(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = choice(e, pi(e.Sub[0], p.NonTerm(nterm)), k)
 	return p.Grammar(nterm, nonterms)
 }
 
@@ -68,11 +76,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e, k)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e, k))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return choice(e, pi(e.Sub[0], k), k)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From a9a48e3f9005a392990229074fb45876300a8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 23/40] fix: reject regexps whose conversion would never
 terminate

---
 rxconv/rxconv.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 2e835f8..de5a921 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -107,7 +107,7 @@ func FromRegexp(s string, flags syntax.Flags) (p.Pattern, error) {
 		return nil, err
 	}
 	if !verify(re) {
-		return nil, fmt.Errorf("invalid regexp (repeat not supported)")
+		return nil, fmt.Errorf("invalid regexp (repeat or repeated empty match not supported)")
 	}
 	return p.Search(p.Cap(convert(re), 0)), nil
 }
@@ -125,8 +125,35 @@ func verify(e *syntax.Regexp) bool {
 			yes = yes && verify(s)
 		}
 		return yes
-	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
+	case syntax.OpStar, syntax.OpPlus:
+		// repeating an empty match would never end
+		return !nullable(e.Sub[0]) && verify(e.Sub[0])
+	case syntax.OpCapture, syntax.OpQuest:
 		return verify(e.Sub[0])
 	}
 	return false
 }
+
+// nullable returns true if e may match without consuming anything.
+func nullable(e *syntax.Regexp) bool {
+	switch e.Op {
+	case syntax.OpLiteral, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpConcat:
+		for _, s := range e.Sub {
+			if !nullable(s) {
+				return false
+			}
+		}
+	case syntax.OpAlternate:
+		for _, s := range e.Sub {
+			if nullable(s) {
+				return true
+			}
+		}
+		return false
+	case syntax.OpCapture, syntax.OpPlus:
+		return nullable(e.Sub[0])
+	}
+	return true
+}
-- 
2.43.0


From 289c3097e7d2f8f484074bd64f88fbc2fc221ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 24/40] fix: convert regexp classes to the encodings of their
 members

---
 rxconv/rxconv.go | 76 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index de5a921..f773b45 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -7,6 +7,7 @@ import (
 	"regexp/syntax"
 	"strconv"
 	"sync/atomic"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -33,6 +34,65 @@ func star(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	return p.Grammar(nterm, nonterms)
 }
 
+// class converts a class, given as pairs of first and last runes, to a pattern
+// that matches the UTF-8 encoding of any rune in the class.
+func class(ranges []rune) p.Pattern {
+	var ascii charset.Set
+	alts := []p.Pattern{nil}
+	for i := 0; i < len(ranges); i += 2 {
+		lo, hi := ranges[i], ranges[i+1]
+		if lo < utf8.RuneSelf {
+			ascii = ascii.Add(charset.Range(byte(lo), byte(min(hi, utf8.RuneSelf-1))))
+			lo = utf8.RuneSelf
+		}
+		alts = appendRange(alts, lo, hi)
+	}
+	alts[0] = p.Set(ascii)
+	return p.Or(alts...)
+}
+
+// appendRange appends patterns for the UTF-8 encodings of the runes from lo to
+// hi, which are not in the ASCII range.
+func appendRange(alts []p.Pattern, lo, hi rune) []p.Pattern {
+	if lo > hi {
+		return alts
+	}
+	// split ranges whose encodings have different lengths, or that contain
+	// surrogates, which have no encoding.
+	for _, last := range []rune{0x7ff, 0xd7ff, 0xdfff, 0xffff} {
+		if lo <= last && last < hi {
+			return appendRange(appendRange(alts, lo, last), last+1, hi)
+		}
+	}
+	if 0xd800 <= lo && hi <= 0xdfff {
+		return alts
+	}
+	// split ranges that are not a sequence of byte ranges.
+	for m := rune(0x3f); m <= 0x3ffff; m = m<<6 | 0x3f {
+		if lo&^m != hi&^m {
+			if lo&m != 0 {
+				return appendRange(appendRange(alts, lo, lo|m), lo|m+1, hi)
+			}
+			if hi&m != m {
+				return appendRange(appendRange(alts, lo, hi&^m-1), hi&^m, hi)
+			}
+		}
+	}
+	first, last := string(lo), string(hi)
+	sets := make([]p.Pattern, len(first))
+	for i := range sets {
+		sets[i] = p.Set(charset.Range(first[i], last[i]))
+	}
+	return append(alts, p.Concat(sets...))
+}
+
+func min(a, b rune) rune {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	switch e.Op {
@@ -41,21 +101,7 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpLiteral:
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
-		lits := make([]p.Pattern, 0, len(e.Rune))
-		for i := 0; i < len(e.Rune); i += 2 {
-			start := e.Rune[i]
-			end := e.Rune[i+1]
-			var patt p.Pattern
-			if start < 256 && end < 256 {
-				patt = p.Set(charset.Range(byte(start), byte(end)))
-				lits = append(lits, p.Concat(patt, k))
-			} else {
-				for ; start <= end; start++ {
-					lits = append(lits, p.Concat(p.Literal(string(start)), k))
-				}
-			}
-		}
-		return p.Or(lits...)
+		return p.Concat(class(e.Rune), k)
 	case syntax.OpAnyChar:
 		// TODO: unicode
 		return p.Concat(p.Any(1), k)
-- 
2.43.0


From c76b72a79451f4eb5da0fec00595471f5a040e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 25/40] fix: convert case-insensitive regexp literals as
 case-insensitive

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index f773b45..9d71556 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -7,6 +7,7 @@ import (
 	"regexp/syntax"
 	"strconv"
 	"sync/atomic"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -34,6 +35,19 @@ func star(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	return p.Grammar(nterm, nonterms)
 }
 
+// fold converts a literal to a pattern that matches it in any case.
+func fold(lit []rune) p.Pattern {
+	patts := make([]p.Pattern, len(lit))
+	for i, r := range lit {
+		cases := []rune{r, r}
+		for c := unicode.SimpleFold(r); c != r; c = unicode.SimpleFold(c) {
+			cases = append(cases, c, c)
+		}
+		patts[i] = class(cases)
+	}
+	return p.Concat(patts...)
+}
+
 // class converts a class, given as pairs of first and last runes, to a pattern
 // that matches the UTF-8 encoding of any rune in the class.
 func class(ranges []rune) p.Pattern {
@@ -99,6 +113,9 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(fold(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		return p.Concat(class(e.Rune), k)
-- 
2.43.0


From c3ccee106f794e430622f801ba778dd011f1eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 26/40] fix: programs with back references can be saved and
 loaded

---
 vm/code.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vm/code.go b/vm/code.go
index 06d568b..6fe3d37 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -36,7 +37,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
@@ -304,7 +305,18 @@ func addError(code *Code, msg string) uint {
 	return uint(len(code.data.Errors) - 1)
 }
 
+// Adds the checker to the code's list of checkers, and returns the index it was
+// added at. A checker used several times is added once if it is a pointer, so
+// that its uses keep sharing one state when the code is saved and loaded.
 func addChecker(code *Code, checker isa.Checker) uint {
+	if reflect.ValueOf(checker).Kind() == reflect.Ptr {
+		for i, c := range code.data.Checkers {
+			if checker == c {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From 3ab51aab401784d5d7e16e0f9abc15d8ba3a5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 27/40] fix: verify the checksum of a saved program when
 loading it

---
 vm/code.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vm/code.go b/vm/code.go
index 6fe3d37..0bcae3e 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -57,7 +58,12 @@ func FromBytes(b []byte) (Code, error) {
 	if err != nil {
 		return Code{}, err
 	}
-	dec := gob.NewDecoder(fz)
+	// read everything before decoding, which verifies the checksum.
+	data, err := ioutil.ReadAll(fz)
+	if err != nil {
+		return Code{}, err
+	}
+	dec := gob.NewDecoder(bytes.NewReader(data))
 	err = dec.Decode(&c)
 	fz.Close()
 	return Code{
-- 
2.43.0


From 1d362e25f4fa542f0d5b50171f279793ff8e6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 28/40] fix: refuse to save a program to JSON if JSON would
 change its error messages

---
 vm/code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vm/code.go b/vm/code.go
index 0bcae3e..3d26fba 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"reflect"
+	"unicode/utf8"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -73,6 +74,11 @@ func FromBytes(b []byte) (Code, error) {
 
 // ToJson returns this Code serialized to JSON form.
 func (c *Code) ToJson() ([]byte, error) {
+	for _, msg := range c.data.Errors {
+		if !utf8.ValidString(msg) {
+			return nil, fmt.Errorf("error message %q cannot be saved to JSON", msg)
+		}
+	}
 	return json.Marshal(c.data)
 }
 
-- 
2.43.0


From 090edeabe4c6ddf7899829030c8a48686aee0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 29/40] fix: rebuilding a rope yields a valid rope

---
 input/linerope/rope.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..9e70c71 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -384,10 +384,7 @@ func Join(a, b *Node, more ...*Node) *Node {
 func (n *Node) Rebuild() {
 	switch n.kind {
 	case tNode:
-		n.value = concat(n.left.Value(), n.right.Value())
-		n.left = nil
-		n.right = nil
-		n.adjust()
+		*n = *NewWithOpts(n.Value(), n.opts)
 	}
 }
 
-- 
2.43.0


From d258f7db61b4650a036b3f9c5c5e7a05e2facf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 30/40] fix: encode programs with more than 256 distinct sets

---
 vm/code.go |  8 ++++----
 vm/op.go   |  7 ++++---
 vm/vm.go   | 10 +++++-----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/vm/code.go b/vm/code.go
index 3d26fba..b86492d 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -142,7 +142,7 @@ func Encode(insns isa.Program) Code {
 			op = opFail
 		case isa.Set:
 			op = opSet
-			args = encodeU8(addSet(&code, t.Chars))
+			args = encodeU16(addSet(&code, t.Chars))
 		case isa.Any:
 			op = opAny
 			args = []byte{t.N}
@@ -151,7 +151,7 @@ func Encode(insns isa.Program) Code {
 			args = encodeLabel(labels[t.Lbl])
 		case isa.Span:
 			op = opSpan
-			args = encodeU8(addSet(&code, t.Chars))
+			args = encodeU16(addSet(&code, t.Chars))
 		case isa.BackCommit:
 			op = opBackCommit
 			args = encodeLabel(labels[t.Lbl])
@@ -168,10 +168,10 @@ func Encode(insns isa.Program) Code {
 			args = append([]byte{t.Byte}, encodeLabel(labels[t.Lbl])...)
 		case isa.TestSet:
 			op = opTestSet
-			args = append(encodeU8(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
+			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
 		case isa.TestSetNoChoice:
 			op = opTestSetNoChoice
-			args = append(encodeU8(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
+			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
 		case isa.TestAny:
 			op = opTestAny
 			args = append([]byte{t.N}, encodeLabel(labels[t.Lbl])...)
diff --git a/vm/op.go b/vm/op.go
index 55ac231..80d137d 100644
--- a/vm/op.go
+++ b/vm/op.go
@@ -48,9 +48,9 @@ const (
 	szChar           = 2
 	szReturn         = 2
 	szFail           = 2
-	szSet            = 2
+	szSet            = 4
 	szAny            = 2
-	szSpan           = 2
+	szSpan           = 4
 	szFailTwice      = 2
 	szEnd            = 2
 	szNop            = 0
@@ -99,7 +99,8 @@ func size(insn isa.Insn) uint {
 	switch insn.(type) {
 	case isa.MemoOpen, isa.MemoTreeOpen, isa.MemoTreeClose, isa.CaptureBegin, isa.CaptureLate,
 		isa.CaptureFull, isa.TestChar, isa.TestCharNoChoice, isa.TestSet,
-		isa.TestSetNoChoice, isa.TestAny, isa.Error, isa.CheckBegin, isa.CheckEnd:
+		isa.TestSetNoChoice, isa.TestAny, isa.Error, isa.CheckBegin, isa.CheckEnd,
+		isa.Set, isa.Span:
 		sz += 2
 	}
 
diff --git a/vm/vm.go b/vm/vm.go
index a8dcd49..9b29b31 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -128,7 +128,7 @@ loop:
 		case opFail:
 			goto fail
 		case opSet:
-			set := decodeSet(idata[ip+1:], vm.data.Sets)
+			set := decodeSet(idata[ip+2:], vm.data.Sets)
 			in, ok := src.Peek()
 			if ok && set.Has(in) {
 				src.Advance(1)
@@ -156,7 +156,7 @@ loop:
 				panic("PartialCommit failed")
 			}
 		case opSpan:
-			set := decodeSet(idata[ip+1:], vm.data.Sets)
+			set := decodeSet(idata[ip+2:], vm.data.Sets)
 			in, ok := src.Peek()
 			for ok && set.Has(in) {
 				src.Advance(1)
@@ -216,7 +216,7 @@ loop:
 			}
 		case opTestSet:
 			lbl := decodeU24(idata[ip+3:])
-			set := decodeSet(idata[ip+2:], vm.data.Sets)
+			set := decodeSet(idata[ip+1:], vm.data.Sets)
 			in, ok := src.Peek()
 			if ok && set.Has(in) {
 				st.pushBacktrack(stackBacktrack{int(lbl), src.Pos()})
@@ -226,7 +226,7 @@ loop:
 				ip = int(lbl)
 			}
 		case opTestSetNoChoice:
-			set := decodeSet(idata[ip+2:], vm.data.Sets)
+			set := decodeSet(idata[ip+1:], vm.data.Sets)
 			in, ok := src.Peek()
 			if ok && set.Has(in) {
 				src.Advance(1)
@@ -510,7 +510,7 @@ func decodeU24(b []byte) uint32 {
 }
 
 func decodeSet(b []byte, sets []charset.Set) charset.Set {
-	i := decodeU8(b)
+	i := decodeU16(b)
 	return sets[i]
 }
 
-- 
2.43.0


From c184a0dfdd49d228a74f5e111495b611cc32eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 31/40] fix: a nested grammar may start with a rule of an
 enclosing grammar

---
 pattern/compile.go  | 5 +++++
 pattern/optimize.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index 141c110..7d74fc9 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -392,6 +392,11 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 				if t.Inlined == nil {
 					used[t.Name] = true
 				}
+			case *GrammarNode:
+				// the start may be a rule of an enclosing grammar
+				if _, ok := t.Defs[t.Start]; !ok {
+					used[t.Start] = true
+				}
 			}
 		})
 	}
diff --git a/pattern/optimize.go b/pattern/optimize.go
index 13a647f..1a717ad 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -113,6 +113,10 @@ func (p *GrammarNode) inline() bool {
 				if t.Inlined == nil {
 					leaf = false
 				}
+			case *GrammarNode:
+				if _, ok := t.Defs[t.Start]; !ok {
+					leaf = false
+				}
 			}
 			size++
 		})
-- 
2.43.0


From 6d7a59c3697271e1882c368fde82e03d6c67b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 32/40] fix: reading the position of a removed interval does
 not shift another

---
 memo/interval/lazylog/tree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 66d5c3a..6f7e4e7 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -207,6 +207,7 @@ func (n *node) remove(key key) *node {
 			// node to delete found with both children;
 			// replace values with smallest node of the right sub-tree
 			rightMinNode := n.right.findSmallest()
+			removedKey, removed := n.key, n.interval
 
 			n.key = rightMinNode.key
 			n.interval = rightMinNode.interval
@@ -214,6 +215,13 @@ func (n *node) remove(key key) *node {
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
 			n.right = n.right.remove(rightMinNode.key)
+
+			// the deleted node keeps the removed interval: its position may
+			// still be read, which must not shift the interval that is now in
+			// the tree at n
+			rightMinNode.key = removedKey
+			rightMinNode.interval = removed
+			rightMinNode.interval.n = rightMinNode
 		} else if n.left != nil {
 			n.left.applyShifts()
 			// node only has left child
-- 
2.43.0


From 94bc1cdb717d8990bb3d932c73c1184066d5f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 33/40] fix: a shift does not hide intervals from the edits
 that invalidate them

---
 memo/interval/lazylog/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 6f7e4e7..5ae137c 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -410,7 +410,10 @@ func (n *node) applyShift(s *shift) {
 	if n.max < s.idx {
 		return
 	}
-	n.max += s.amt
+	// n.max may be larger than the end of any interval below n, so if it moves
+	// to before idx there may still be intervals ending in between that do not
+	// move.
+	n.max = max(n.max+s.amt, s.idx)
 	if n.key.pos >= s.idx {
 		n.key.pos += s.amt
 		n.interval.Shift(s.amt)
-- 
2.43.0


From 533e29878c4c9eb77fa0228d0071b36ab3f3c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:44 +0000
Subject: [PATCH 34/40] fix: the stream adapter reports the end only for reads
 that reach it

A read that was satisfied in full returned the error that ended the stream
even when the stream had more bytes, so callers that stop at an error (for
example an io.SectionReader over the adapter) lost the rest.
---
 input/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/input/reader.go b/input/reader.go
index fca7d53..4234ed0 100644
--- a/input/reader.go
+++ b/input/reader.go
@@ -48,7 +48,12 @@ func (r *readerWrapper) ReadAt(b []byte, off int64) (n int, err error) {
 		return 0, err
 	}
 
-	return copy(b, r.buf[off:]), err
+	n = copy(b, r.buf[off:])
+	if int64(n) == blen {
+		// the error belongs to a read that goes further.
+		err = nil
+	}
+	return n, err
 }
 
 // Slice returns the slice [low:high) in the given ReaderAt.
-- 
2.43.0


From df6ee6b3b5e265d26135ae089a75d323ea94059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:21 +0000
Subject: [PATCH 35/40] fix: a small set answers for bytes above 127

SmallSet.Has panicked for bytes of 128 and more instead of reporting that
they are not in the set.
---
 charset/charset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/charset/charset.go b/charset/charset.go
index abef147..12f1c7a 100644
--- a/charset/charset.go
+++ b/charset/charset.go
@@ -33,7 +33,7 @@ func (c SmallSet) Size() int {
 // Has checks if a charset accepts a character.
 // Pointer receiver is for performance.
 func (c *SmallSet) Has(r byte) bool {
-	return c.Bits[r>>log2WordSize]&(uint64(1)<<(r&(wordSize-1))) != 0
+	return r < 2*wordSize && c.Bits[r>>log2WordSize]&(uint64(1)<<(r&(wordSize-1))) != 0
 }
 
 // IsSmall returns true if this set can be converted to a small set. In other
-- 
2.43.0


From eafca62158e8712c7cafe044234a1ae04908d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 36/40] fix: reject patterns nested too deeply to compile

A pattern with some 100,000 nested parentheses overflowed the stack,
which ends the program, instead of being reported as an error.
---
 re/re.go | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/re/re.go b/re/re.go
index 0e3101d..db43de9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -178,7 +178,31 @@ func compileSet(root *memo.Capture, s string) charset.Set {
 	return charset.Set{}
 }
 
-func Compile(s string) (pattern.Pattern, error) {
+// Patterns nested deeper than this are rejected, because every level of nesting
+// is a level of recursion for the functions that compile the pattern. A level of
+// parentheses makes five levels of the syntax tree (expression, sequence, prefix,
+// suffix and primary).
+const (
+	maxNesting = 10000
+	maxDepth   = 5 * maxNesting
+)
+
+// deeper returns true if the tree has more than n levels.
+func deeper(root *memo.Capture, n int) bool {
+	if n == 0 {
+		return true
+	}
+	it := root.ChildIterator(0)
+	for c := it(); c != nil; c = it() {
+		if deeper(c, n-1) {
+			return true
+		}
+	}
+	return false
+}
+
+// parse returns the syntax tree of the pattern s.
+func parse(s string) (*memo.Capture, error) {
 	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NoneTable{})
 	if len(errs) != 0 {
 		return nil, errs[0]
@@ -187,7 +211,19 @@ func Compile(s string) (pattern.Pattern, error) {
 		return nil, fmt.Errorf("Invalid PEG: failed at %d", n)
 	}
 
-	return compile(ast.Child(0), s, false, nil), nil
+	root := ast.Child(0)
+	if deeper(root, maxDepth) {
+		return nil, fmt.Errorf("Invalid PEG: nested deeper than %d levels", maxNesting)
+	}
+	return root, nil
+}
+
+func Compile(s string) (pattern.Pattern, error) {
+	root, err := parse(s)
+	if err != nil {
+		return nil, err
+	}
+	return compile(root, s, false, nil), nil
 }
 
 func MustCompile(s string) pattern.Pattern {
@@ -199,15 +235,11 @@ func MustCompile(s string) pattern.Pattern {
 }
 
 func CompileCap(s string, ids map[string]int) (pattern.Pattern, error) {
-	match, n, ast, errs := parser.Exec(strings.NewReader(s), memo.NoneTable{})
-	if len(errs) != 0 {
-		return nil, errs[0]
-	}
-	if !match {
-		return nil, fmt.Errorf("Invalid PEG: failed at %d", n)
+	root, err := parse(s)
+	if err != nil {
+		return nil, err
 	}
-
-	return compile(ast.Child(0), s, true, ids), nil
+	return compile(root, s, true, ids), nil
 }
 
 func MustCompileCap(s string, ids map[string]int) pattern.Pattern {
-- 
2.43.0


From aade2b81f2d51f413ee152834cf6cbf40c7c3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 37/40] fix: refuse to encode a jump to a label that is not in
 the program

Such a jump was encoded as a jump to the start of the program.
---
 vm/code.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/vm/code.go b/vm/code.go
index b86492d..5cfe58e 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -113,6 +113,13 @@ func Encode(insns isa.Program) Code {
 			bcount += size(insn)
 		}
 	}
+	lookup := func(l isa.Label) uint {
+		addr, ok := labels[l]
+		if !ok {
+			panic(fmt.Sprintf("label %v is not in the program", l))
+		}
+		return addr
+	}
 
 	for _, insn := range insns {
 		var op byte
@@ -126,16 +133,16 @@ func Encode(insns isa.Program) Code {
 			args = []byte{t.Byte}
 		case isa.Jump:
 			op = opJump
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.Choice:
 			op = opChoice
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.Call:
 			op = opCall
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.Commit:
 			op = opCommit
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.Return:
 			op = opReturn
 		case isa.Fail:
@@ -148,13 +155,13 @@ func Encode(insns isa.Program) Code {
 			args = []byte{t.N}
 		case isa.PartialCommit:
 			op = opPartialCommit
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.Span:
 			op = opSpan
 			args = encodeU16(addSet(&code, t.Chars))
 		case isa.BackCommit:
 			op = opBackCommit
-			args = encodeLabel(labels[t.Lbl])
+			args = encodeLabel(lookup(t.Lbl))
 		case isa.FailTwice:
 			op = opFailTwice
 		case isa.Empty:
@@ -162,19 +169,19 @@ func Encode(insns isa.Program) Code {
 			args = []byte{uint8(t.Op)}
 		case isa.TestChar:
 			op = opTestChar
-			args = append([]byte{t.Byte}, encodeLabel(labels[t.Lbl])...)
+			args = append([]byte{t.Byte}, encodeLabel(lookup(t.Lbl))...)
 		case isa.TestCharNoChoice:
 			op = opTestCharNoChoice
-			args = append([]byte{t.Byte}, encodeLabel(labels[t.Lbl])...)
+			args = append([]byte{t.Byte}, encodeLabel(lookup(t.Lbl))...)
 		case isa.TestSet:
 			op = opTestSet
-			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
+			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(lookup(t.Lbl))...)
 		case isa.TestSetNoChoice:
 			op = opTestSetNoChoice
-			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(labels[t.Lbl])...)
+			args = append(encodeU16(addSet(&code, t.Chars)), encodeLabel(lookup(t.Lbl))...)
 		case isa.TestAny:
 			op = opTestAny
-			args = append([]byte{t.N}, encodeLabel(labels[t.Lbl])...)
+			args = append([]byte{t.N}, encodeLabel(lookup(t.Lbl))...)
 		case isa.CaptureBegin:
 			op = opCaptureBegin
 			args = encodeI16(int(t.Id))
@@ -188,12 +195,12 @@ func Encode(insns isa.Program) Code {
 			args = append([]byte{t.Back}, encodeI16(int(t.Id))...)
 		case isa.MemoOpen:
 			op = opMemoOpen
-			args = append(encodeLabel(labels[t.Lbl]), encodeI16(int(t.Id))...)
+			args = append(encodeLabel(lookup(t.Lbl)), encodeI16(int(t.Id))...)
 		case isa.MemoClose:
 			op = opMemoClose
 		case isa.MemoTreeOpen:
 			op = opMemoTreeOpen
-			args = append(encodeLabel(labels[t.Lbl]), encodeI16(int(t.Id))...)
+			args = append(encodeLabel(lookup(t.Lbl)), encodeI16(int(t.Id))...)
 		case isa.MemoTreeInsert:
 			op = opMemoTreeInsert
 		case isa.MemoTree:
-- 
2.43.0


From d83f3832bf7806caadc68d9dec19c1e1648f17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:20 +0000
Subject: [PATCH 38/40] fix: linerope: line/column of an offset inside a
 multi-byte separator

---
 input/linerope/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..40e9655 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -31,7 +31,8 @@ func lineCol(b, sep []byte, pos int) loc {
 		idx := bytes.Index(b[last:], sep)
 		if idx < 0 {
 			break
-		} else if last+idx >= pos {
+		} else if last+idx+len(sep) > pos {
+			// the bytes of a separator belong to the line it ends
 			return loc{line, pos - last}
 		}
 		last += idx + len(sep)
-- 
2.43.0


From 693e40661b23028ccfd99ac911be9bef7567db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:22 +0000
Subject: [PATCH 39/40] fix: linerope: offsets in the first line were shifted
 with multi-byte separators

---
 input/linerope/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 40e9655..e211769 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -4,8 +4,13 @@ import (
 	"bytes"
 )
 
-// indexN finds the index of n-th sep in b.
+// indexN finds the index of n-th sep in b. The first line begins as if a
+// separator (the 0th) ended at the beginning of b.
 func indexN(b, sep []byte, n int) (index int) {
+	if n == 0 {
+		return -len(sep)
+	}
+
 	index, idx, sepLen := 0, -1, len(sep)
 	for i := 0; i < n; i++ {
 		if idx = bytes.Index(b, sep); idx == -1 {
-- 
2.43.0


From 922cd8efc411f964c63cabd3cd1b5b9923faadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:01 +0000
Subject: [PATCH 40/40] fix: lazy.Tree: bounds of subtrees moved with shifts
 that move no interval

---
 memo/interval/lazy/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 2bd0b97..7fcfc75 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -121,8 +121,10 @@ func (n *node) applyShifts() {
 					n.iv.ivs[i].interval = iv.interval.Shift(sh.amt)
 				}
 			}
-			n.max += sh.amt
-			// n.updateMax()
+			// n.max may be larger than the end of any interval below n, so if
+			// it moves to before idx there may still be intervals ending in
+			// between that do not move.
+			n.max = max(n.max+sh.amt, sh.idx)
 		}
 
 		n.left.addShift(sh)
-- 
2.43.0

