From 0eb0254cc4c0defd12f4c539820fa899b422438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:25 +0000
Subject: [PATCH 01/27] fix: do not touch memory blocks when searching an empty
 tree

Lookup (and prefix searches) on an empty tree read block 0, which panics with a
nil dereference until the block allocator goroutine has created that block.
---
 radix.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radix.go b/radix.go
index d8479c0..63008d8 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,10 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		// index is empty, and the first block might not even be allocated yet
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From 568e2bf3f208c960d9bf082eb39d40ddc0ca5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:25 +0000
Subject: [PATCH 02/27] fix: an empty key is not found when the root is a leaf

Lookup and PrepareDelete of an empty key report not found on every other tree,
but panicked (keeping the allocator) when the tree held a single key.
---
 delete.go | 2 +-
 radix.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/delete.go b/delete.go
index b7537db..8e29844 100644
--- a/delete.go
+++ b/delete.go
@@ -83,7 +83,7 @@ S:
 		return false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			if !op.idx.lockLeafRoot(root) {
 				runtime.Gosched()
 				goto S
diff --git a/radix.go b/radix.go
index 63008d8..715372b 100644
--- a/radix.go
+++ b/radix.go
@@ -513,7 +513,7 @@ func (idx *Tree) search(key []byte) (uint64, bool) {
 		return 0, false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			return getLeafValue(root), true
 		}
 		return 0, false
-- 
2.43.0


From da1fc5db339f74e14d46c60d12f238bb0b925260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:25 +0000
Subject: [PATCH 03/27] fix: off by one when recycling nodes of 258 slots

recycle indexed a.recycler[258] (length 258), so replacing for instance a
node-256 having a 9-16 bytes prefix panicked.
---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 472fefd52e1a7ce50027e8c513c0f9dfde4904bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:26 +0000
Subject: [PATCH 04/27] fix: argument order when aborting a node merge

Aborting the delete of a leaf in a two-child root node with a node sibling
passed parent (0) as child, which panicked and left a lock taken.
---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 8e29844..f2bd5df 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 87a9e4dc208670961341dd4527f0280d214be3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:44 +0000
Subject: [PATCH 05/27] fix: iteration ending on a full batch restarted from
 the beginning

When a batch ended exactly at the last leaf of the tree, the resume position was
read past the end of a node, and iteration started over (two full 256-way nodes
are enough to iterate forever).
---
 iterator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..cd66313 100644
--- a/iterator.go
+++ b/iterator.go
@@ -208,7 +208,8 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			// if there is nothing left to resume at we are done
+			i.done = !i.storeResumePosition()
 			break
 		}
 		// pop from stack
@@ -230,15 +231,19 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// storeResumePosition saves the position of the next item to scan. It returns false if there are no more items.
+func (i *Iterator) storeResumePosition() bool {
 	// first trim consecutive items without any more children from end of stack
 	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
+	for j = len(i.stack) - 1; j >= 0; j-- {
 		if i.stack[j].more {
 			break
 		}
 	}
 	i.stack = i.stack[:j+1]
+	if len(i.stack) == 0 {
+		return false
+	}
 
 	// traverse stack from start to end to build the partial key we should continue from
 	i.resumeAt = i.resumeAt[:0]
@@ -258,6 +263,7 @@ func (i *Iterator) storeResumePosition() {
 			i.resumeAt = append(i.resumeAt, byte(a))
 		}
 	}
+	return true
 }
 
 // Value returns the value stored at the current item.
-- 
2.43.0


From 31330bb45b51c486d49c22bb640e9b30ced374a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:44 +0000
Subject: [PATCH 06/27] fix: iterator returned its last batch again when
 resuming at a leaf

If the tree shrunk to a single leaf between two batches, the values of the
previous batch were returned once more after that leaf.
---
 iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iterator.go b/iterator.go
index cd66313..8f86cc4 100644
--- a/iterator.go
+++ b/iterator.go
@@ -84,6 +84,7 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
 		i.done = true
-- 
2.43.0


From 64bf3097f56b4c549b66cc1381a825a63e063301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 07/27] fix: resume iteration at the right item when the tree
 changed between batches

If the node to resume at was deleted, split or merged by a writer between two
batches, iteration continued from the start of some enclosing node (returning
items again, possibly forever) or from a misaligned position (missing items).
Store the resume position as a partial key from the root and seek to the first
item at or after it, comparing node prefixes.
---
 iterator.go | 113 +++++++++++++++++++++++-----------------------------
 1 file changed, 49 insertions(+), 64 deletions(-)

diff --git a/iterator.go b/iterator.go
index 8f86cc4..ccfd686 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -69,12 +70,7 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
-	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
-	} else {
-		raw = atomic.LoadUint64(&i.idx.root)
-	}
+	raw, startDepth := i.idx.partialSearch(i.searchPrefix)
 	if raw == 0 {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
@@ -92,71 +88,55 @@ func (i *Iterator) Next() bool {
 	}
 
 	// 3. seek to the partial key where we last left of, while building stack
-	// we traverse i.resumeAt to reposition raw & nextChild
-	nextChild := 0
+	// The tree might have changed since then, so we position raw & nextChild at the first item at or after i.resumeAt
+	// depth is the length of the partial key leading to raw
+	depth, nextChild := startDepth, 0
+	var prefix []byte
 preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for depth < len(i.resumeAt) {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			prefix, prefixSlots = appendPrefix(prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
-			if k >= len(i.resumeAt) {
+			rest := i.resumeAt[depth:]
+			if len(rest) > len(prefix) {
+				rest = rest[:len(prefix)]
+			}
+			if c := bytes.Compare(prefix[:len(rest)], rest); c != 0 {
+				if c < 0 {
+					// the whole node is located before the resume position
+					nextChild = count
+				}
+				break preSearchLoop
+			}
+			depth += len(prefix)
+			if depth >= len(i.resumeAt) {
 				break preSearchLoop
 			}
 		}
 
-		char := i.resumeAt[k]
+		// find the first child at or after the resume position
+		char := i.resumeAt[depth]
 		if count >= fullAllocFrom {
-			// check a fixed size node-256
-			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
-				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
-				}
-				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
-				raw = a
-				continue preSearchLoop
+			nextChild = int(char)
+		}
+		var a uint64
+		for ; nextChild < count; nextChild++ {
+			a = atomic.LoadUint64(&data[nextChild])
+			if a != 0 && byte(a) >= char {
+				break
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+		}
+		if nextChild == count || isLeaf(a) || byte(a) > char {
 			break preSearchLoop
-		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
-				}
-			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break
 		}
+		// go down into this node, saving the current position on the stack
+		i.stack = append(i.stack, position{raw, nextChild + 1, nextChild+1 < count})
+		raw = a
+		nextChild = 0
+		depth++
 	}
 
 	// 4. continue the scan, adding leaves to the prefetched array
@@ -210,7 +190,7 @@ searchLoop:
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
 			// if there is nothing left to resume at we are done
-			i.done = !i.storeResumePosition()
+			i.done = !i.storeResumePosition(startDepth)
 			break
 		}
 		// pop from stack
@@ -232,8 +212,9 @@ searchLoop:
 	return false
 }
 
-// storeResumePosition saves the position of the next item to scan. It returns false if there are no more items.
-func (i *Iterator) storeResumePosition() bool {
+// storeResumePosition saves the position of the next item to scan, startDepth being the part of searchPrefix leading to the start of the scan.
+// It returns false if there are no more items.
+func (i *Iterator) storeResumePosition(startDepth int) bool {
 	// first trim consecutive items without any more children from end of stack
 	var j int
 	for j = len(i.stack) - 1; j >= 0; j-- {
@@ -247,9 +228,9 @@ func (i *Iterator) storeResumePosition() bool {
 	}
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:startDepth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -260,8 +241,12 @@ func (i *Iterator) storeResumePosition() bool {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
-			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
-			i.resumeAt = append(i.resumeAt, byte(a))
+			if count >= fullAllocFrom {
+				i.resumeAt = append(i.resumeAt, byte(pos.k))
+			} else {
+				a := atomic.LoadUint64(&data[prefixSlots+pos.k])
+				i.resumeAt = append(i.resumeAt, byte(a))
+			}
 		}
 	}
 	return true
-- 
2.43.0


From d18b157b991be22ad112bfb16aef69e95ae2d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 08/27] fix: serialize withdrawing of all allocators

Len started a stopped tree again. Concurrent calls of Stop and Len (or Len and
Len) returned before the tree was stopped and released allocators still in use
by others, and the admin allocators command deadlocked with any of them or on a
stopped tree.
---
 admin.go | 18 ++++++------------
 radix.go | 51 +++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..d7bbe46 100644
--- a/admin.go
+++ b/admin.go
@@ -31,18 +31,12 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 	case "allocators":
 		switch {
 		case len(argv) == 1:
-			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
-			}
-			for i, a := range idx.allocators {
-				a.printStats(out, i)
-			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
+			// withdraw all allocators, and release them again
+			idx.whileStopped(func() {
+				for i, a := range idx.allocators {
+					a.printStats(out, i)
+				}
+			})
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index 715372b..0e2aefc 100644
--- a/radix.go
+++ b/radix.go
@@ -83,7 +83,9 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	// stopLock makes sure only one goroutine at a time withdraws all allocators
+	stopLock sync.Mutex
+	stopped  bool
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -135,12 +137,12 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
-	count = int(idx.liveObjects)
-	for _, a := range idx.allocators {
-		count += int(a.itemCounter)
-	}
-	idx.Start()
+	idx.whileStopped(func() {
+		count = int(atomic.LoadInt64(&idx.liveObjects))
+		for _, a := range idx.allocators {
+			count += int(a.itemCounter)
+		}
+	})
 	return
 }
 
@@ -148,20 +150,45 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
 		return
 	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
-	}
+	idx.withdrawAllocators()
+	idx.stopped = true
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
 		return
 	}
+	idx.stopped = false
+	idx.returnAllocators()
+}
+
+// whileStopped runs f while all allocators are withdrawn, leaving the tree stopped if it already was
+func (idx *Tree) whileStopped(f func()) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
+		idx.withdrawAllocators()
+		defer idx.returnAllocators()
+	}
+	f()
+}
+
+func (idx *Tree) withdrawAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
+	}
+}
+
+func (idx *Tree) returnAllocators() {
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
-- 
2.43.0


From 3173a8f9fd223f4e775c70e557c8a703a8889ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:40 +0000
Subject: [PATCH 09/27] fix: count a memory block as allocated before it is
 used

---
 allocator.go |  1 +
 radix.go     | 11 +++++++++++
 state.go     |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..e5e1b2b 100644
--- a/allocator.go
+++ b/allocator.go
@@ -244,6 +244,7 @@ func (a *Allocator) allocateNode(slots int) (n uint64) {
 	a.nextFree += uint64(slots) * 8
 	if a.nextFree >= blockSize {
 		a.block = <-a.newBlocks
+		a.idx.countBlock(a.block)
 		a.offset = uint64(a.block) * blockSize
 		// avoid the 0 slot in block 0 !
 		if a.offset == 0 {
diff --git a/radix.go b/radix.go
index 0e2aefc..2ea180d 100644
--- a/radix.go
+++ b/radix.go
@@ -222,6 +222,17 @@ func (idx *Tree) blockAllocator() {
 	}
 }
 
+// countBlock makes sure a block handed out to an allocator is included in nextFreeBlock.
+// The block allocator counts it too, but possibly not until after the allocator has started using the block.
+func (idx *Tree) countBlock(block int) {
+	for {
+		next := atomic.LoadUint64(&idx.nextFreeBlock)
+		if next > uint64(block) || atomic.CompareAndSwapUint64(&idx.nextFreeBlock, next, uint64(block)+1) {
+			return
+		}
+	}
+}
+
 func (idx *Tree) getBlockStatus(block int) (status int) {
 	idx.blockMapLock.RLock()
 	status = idx.blockMap[block]
diff --git a/state.go b/state.go
index 8f63d92..0b24f57 100644
--- a/state.go
+++ b/state.go
@@ -18,9 +18,10 @@ import (
 // It assumes are allocators are locked by caller.
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
+	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -88,7 +89,6 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 	for i := 0; i < next; i++ {
 		toCompress <- i
 	}
-- 
2.43.0


From 17eaf6dc3218dc36c36e70313240ab5cc3bebf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 10/27] fix: save the exact number of objects, including
 counters not yet flushed

---
 radix.go | 14 ++++++++++----
 state.go |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/radix.go b/radix.go
index 2ea180d..7190f5f 100644
--- a/radix.go
+++ b/radix.go
@@ -138,14 +138,20 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
 	idx.whileStopped(func() {
-		count = int(atomic.LoadInt64(&idx.liveObjects))
-		for _, a := range idx.allocators {
-			count += int(a.itemCounter)
-		}
+		count = int(idx.countObjects())
 	})
 	return
 }
 
+// countObjects returns the exact number of items in the tree, it must be stopped
+func (idx *Tree) countObjects() (count int64) {
+	count = atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		count += a.itemCounter
+	}
+	return
+}
+
 // Stop withdraws all allocators to prevent any more write or reads.
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
diff --git a/state.go b/state.go
index 0b24f57..0ee9534 100644
--- a/state.go
+++ b/state.go
@@ -21,7 +21,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", idx.countObjects(), blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From da7909fd9a07b2c6daa98bfbcd2d662abb813572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 11/27] fix: WriteState blocked forever when the writer failed

---
 state.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/state.go b/state.go
index 0ee9534..d023fce 100644
--- a/state.go
+++ b/state.go
@@ -68,25 +68,32 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	writerDone := make(chan error)
 	go func() {
 		// writer
-		var writeTime time.Duration
+		var (
+			writeTime time.Duration
+			failed    error
+		)
 		for job := range toWrite {
+			if failed != nil {
+				// keep receiving, otherwise the workers would block forever
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				failed = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- failed
 	}()
 
 	for i := 0; i < next; i++ {
-- 
2.43.0


From 79370cd86145e4b46278a600fa2a1a68bc013253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:10 +0000
Subject: [PATCH 12/27] fix: refuse to load an incomplete state

---
 state.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index d023fce..48bb3dd 100644
--- a/state.go
+++ b/state.go
@@ -116,12 +116,15 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+		// names of all header lines seen, and number of distinct allocator sections seen
+		headers          = make(map[string]bool)
+		allocatorsLoaded = make(map[uint64]bool)
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
 		if err != nil {
@@ -130,8 +133,12 @@ func (idx *Tree) loadState(data io.Reader) error {
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Unexpected line %q", line)
+		}
 		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
 
+		headers[string(line[:space])] = true
 		switch string(line[:space]) {
 		case "objects":
 			idx.liveObjects = int64(v)
@@ -168,6 +175,7 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if err := idx.allocators[v].loadState(reader); err != nil {
 				return err
 			}
+			allocatorsLoaded[v] = true
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
 
 		case "block":
@@ -207,5 +215,19 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 		}
 	}
+	// check that the state is complete
+	for _, name := range []string{"objects", "blocksize", "allocated_blocks", "allocators", "root_node", "epoch"} {
+		if !headers[name] {
+			return fmt.Errorf("Incomplete index state file, %s is missing", name)
+		}
+	}
+	if len(allocatorsLoaded) != allocators {
+		return fmt.Errorf("Incomplete index state file, only %d of %d allocators found", len(allocatorsLoaded), allocators)
+	}
+	for i := uint64(0); i < idx.nextFreeBlock; i++ {
+		if i >= uint64(len(idx.blocks)) || idx.blocks[i] == nil {
+			return fmt.Errorf("Incomplete index state file, block %d of %d is missing", i, idx.nextFreeBlock)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From f8ceb4f3d3ead89554dd326174bddd75d461ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 13/27] fix: find minimum and maximum keys next to an emptied
 node-256

---
 radix.go | 100 ++++++++++++++++++-------------------------------------
 1 file changed, 32 insertions(+), 68 deletions(-)

diff --git a/radix.go b/radix.go
index 7190f5f..4dd4b78 100644
--- a/radix.go
+++ b/radix.go
@@ -446,45 +446,27 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
+	return idx.maxLeaf(raw)
+}
+
+// maxLeaf returns the value of the last leaf below the given node, if there is one
+func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
+	count, _, data := idx.getNodeFromRaw(raw)
+	// iterate from top, children are ordered
+	// in a node-256 any child may be missing, and since they don't shrink it might even be empty
+	for k := count - 1; k >= 0; k-- {
+		a := atomic.LoadUint64(&data[k])
+		if a == 0 {
+			continue
 		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
 		if isLeaf(a) {
 			return getLeafValue(a), true
 		}
-		raw = a
+		if v, ok = idx.maxLeaf(a); ok {
+			return v, true
+		}
 	}
+	return 0, false
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
@@ -498,45 +480,27 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+	return idx.minLeaf(raw)
+}
+
+// minLeaf returns the value of the first leaf below the given node, if there is one
+func (idx *Tree) minLeaf(raw uint64) (v uint64, ok bool) {
+	count, _, data := idx.getNodeFromRaw(raw)
+	// iterate from bottom, children are ordered
+	// in a node-256 any child may be missing, and since they don't shrink it might even be empty
+	for k := 0; k < count; k++ {
+		a := atomic.LoadUint64(&data[k])
+		if a == 0 {
+			continue
 		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
 		if isLeaf(a) {
 			return getLeafValue(a), true
 		}
-		raw = a
+		if v, ok = idx.minLeaf(a); ok {
+			return v, true
+		}
 	}
+	return 0, false
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From d226bdae582b72ded29ecb5c805f5ee605f78ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 14/27] fix: reserve the epoch during minimum and maximum
 searches

---
 radix.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/radix.go b/radix.go
index 4dd4b78..1f99270 100644
--- a/radix.go
+++ b/radix.go
@@ -439,6 +439,12 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so that no node is recycled while we read it
+	alloc := idx.GetAllocator()
+	alloc.startOp()
+	defer idx.ReleaseAllocator(alloc)
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -473,6 +479,12 @@ func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so that no node is recycled while we read it
+	alloc := idx.GetAllocator()
+	alloc.startOp()
+	defer idx.ReleaseAllocator(alloc)
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 0b5af12fc507e26c93768d1c409bd38e07a45d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:07 +0000
Subject: [PATCH 15/27] fix: lock a node-256 when deleting from it

---
 delete.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index f2bd5df..9c27c8b 100644
--- a/delete.go
+++ b/delete.go
@@ -155,6 +155,11 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
+				// the node must be locked, otherwise it might be replaced by a copy where the leaf is not deleted
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
@@ -320,6 +325,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
 		// TODO(oscar): replace with a leaf when there is only one child left
 		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+		op.unlock()
 		if deleted {
 			op.allocator.itemCounter--
 		}
@@ -338,7 +344,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From 7b2c63dba5d9e53f5473fc8bb2f28b2b15b0af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 16/27] fix: verify the generation of all nodes also when they
 share a lock

---
 locks.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/locks.go b/locks.go
index ad61f9e..710f6f7 100644
--- a/locks.go
+++ b/locks.go
@@ -62,6 +62,10 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// child and node share a lock, and node was changed before we fetched the child generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
@@ -75,6 +79,19 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			}
 			return false
 		}
+	} else {
+		// parent shares a lock with node or child, it must not have been changed before we fetched that generation
+		sharedGen := nodeGen
+		if lock3 == lock && block3 == block {
+			sharedGen = childGen
+		}
+		if parentGen != sharedGen {
+			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+			if lock2Unique {
+				atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
+			}
+			return false
+		}
 	}
 	return true
 }
@@ -135,6 +152,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// node and parent share a lock, and parent was changed before we fetched the node generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 2339c1dde59d2eca86d0c81a91aa0b4552d67541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:30 +0000
Subject: [PATCH 17/27] fix: recycle the removed node when merging a node with
 its child

---
 delete.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 9c27c8b..c59a414 100644
--- a/delete.go
+++ b/delete.go
@@ -53,6 +53,7 @@ type DeleteOperation struct {
 	count        int
 	prefixLen    int
 	prefixSlots  int
+	nodeSlots    int
 	leafPosition int
 
 	prefix []byte
@@ -234,6 +235,8 @@ searchLoop:
 						goto S
 					}
 
+					// remember the size of this node, since op.prefixSlots will be used for the child node
+					op.nodeSlots = count + op.prefixSlots
 					// now build the new prefix, start with adding the existing prefix for the current node (the one being replaced)
 					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)
 					// add the child node key
@@ -296,7 +299,8 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old node and the old child node
+		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
-- 
2.43.0


From 553818ee95e14f8f3ce661a7a5a098b3a75918ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 18/27] fix: refuse nodes too large for a memory block

---
 allocator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.go b/allocator.go
index e5e1b2b..154f739 100644
--- a/allocator.go
+++ b/allocator.go
@@ -239,6 +239,10 @@ func (a *Allocator) newNode(slots int) (n uint64) {
 
 // allocateNode allocates a new block of memory and returns it's global offset counted in 8 byte multiples
 func (a *Allocator) allocateNode(slots int) (n uint64) {
+	// a node may not be larger than what is available in an empty block, slot 0 of block 0 is never used
+	if slots > blockSize>>3-1 {
+		panic(fmt.Sprintf("Node of %d slots is too large for a memory block", slots))
+	}
 	// a.offset and a.nextFree are still in bytes
 	n = (a.offset + a.nextFree) >> 3
 	a.nextFree += uint64(slots) * 8
-- 
2.43.0


From 840a05c90f88f6a71041bd3e3236e2f14a8a91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:00 +0000
Subject: [PATCH 19/27] fix: description of an update operation at the root
 used stale data

---
 update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/update.go b/update.go
index 70680de..33cfd95 100644
--- a/update.go
+++ b/update.go
@@ -101,6 +101,12 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.Match = false
 	op.Value = 0
 	op.FetchedKey = op.FetchedKey[:0]
+	// clear what was left by a previous use of this pooled operation, it is not set if root is empty or a leaf
+	op.depth = 0
+	op.node = 0
+	op.parent = 0
+	op.prefix = op.prefix[:0]
+	op.prefixSlots = 0
 	op.allocator.startOp()
 S:
 	root := atomic.LoadUint64(&op.idx.root)
-- 
2.43.0


From 1588dcce59e54da825ca07c26dda13af2ebfb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 20/27] fix: validate the node id of the admin node command

---
 admin.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/admin.go b/admin.go
index d7bbe46..171638b 100644
--- a/admin.go
+++ b/admin.go
@@ -68,8 +68,12 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
-		idx.debugPrintNode(out, uint64(node))
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		if err != nil {
+			fmt.Fprint(out, "Invalid node\n")
+			return
+		}
+		idx.debugPrintNode(out, node)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
@@ -87,12 +91,21 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	// the node id is given by the user, so verify it's inside the allocated memory
+	if block >= atomic.LoadUint64(&idx.nextFreeBlock) {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
-
 	data := idx.blocks[block].data[offset:]
+	slots := uint64(count + (prefixLen+7)>>3)
+	if prefixLen == 255 {
+		// the real prefix length is stored in the first slot
+		slots = uint64(count) + (data[0]+15)>>3
+	}
+	if slots > uint64(len(data)) || prefixLen == 255 && (data[0] < 255 || data[0] > blockSize) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
 
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
-- 
2.43.0


From 913b15703bc21850054d140e3597186fb914fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 21/27] fix: load the empty flag of an allocator

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 154f739..0dd6b8a 100644
--- a/allocator.go
+++ b/allocator.go
@@ -286,7 +286,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = string(values) == "true"
 		case "next_free":
 			a.nextFree = v
 		case "block":
-- 
2.43.0


From 3dcd80673d01a91016643ec8e405732cbd7690e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 22/27] instrumentation points, only active with the build tag
 verif

---
 allocator.go |  3 +++
 counter.go   |  2 ++
 delete.go    | 22 ++++++++++++++++++++++
 hooks.go     | 25 +++++++++++++++++++++++++
 hooks_off.go | 12 ++++++++++++
 hooks_on.go  | 25 +++++++++++++++++++++++++
 iterator.go  |  4 ++++
 locks.go     |  7 +++++++
 radix.go     |  4 ++++
 slots.go     |  1 +
 update.go    | 32 ++++++++++++++++++++++++++++++++
 11 files changed, 137 insertions(+)
 create mode 100644 hooks.go
 create mode 100644 hooks_off.go
 create mode 100644 hooks_on.go

diff --git a/allocator.go b/allocator.go
index 0dd6b8a..65a3e84 100644
--- a/allocator.go
+++ b/allocator.go
@@ -170,6 +170,7 @@ func (a *Allocator) PrepareDelete(key []byte) (found bool, op *DeleteOperation)
 // startOp fetches the current global epoch and makes an allocator specific reservation with this epoch, meaning that only memory blocks recycled before this epoch are safe to reuse.
 func (a *Allocator) startOp() {
 	atomic.StoreUint64(a.reserveSlot, atomic.LoadUint64(a.globalEpoch))
+	verifPoint(verifReserve)
 }
 
 // endOp clears the reservation made by a previous call to startOp
@@ -208,6 +209,7 @@ func (a *Allocator) printStats(out io.Writer, i int) {
 // newNode returns a node with room for the given number of slots, node is a global offset in 8 byte multiples
 func (a *Allocator) newNode(slots int) (n uint64) {
 	minReserved := a.manager.minReservation()
+	verifPoint(verifAllocate)
 	for t := slots; t < len(a.recycler); t++ {
 		l := len(a.recycler[t])
 		if l > 0 {
@@ -224,6 +226,7 @@ func (a *Allocator) newNode(slots int) (n uint64) {
 						a.recycler[unusedSlots] = append(a.recycler[unusedSlots], recycledItem{n2, item.e})
 						//a.slotsReleased += uint64(unusedSlots)
 					}
+					verifReuse(a.idx, n, slots)
 					//a.slotsReused += uint64(slots)
 					return n
 				}
diff --git a/counter.go b/counter.go
index 8b32ef6..de348e2 100644
--- a/counter.go
+++ b/counter.go
@@ -64,6 +64,7 @@ func (c *Counter) Count(searchPrefix []byte) (nodes, leaves int) {
 
 searchLoop:
 	for {
+		verifPoint(verifRead)
 		_, node, count, prefixLen := explodeNode(p.raw)
 		data := c.idx.getNodeData(node)
 		if prefixLen > 0 {
@@ -82,6 +83,7 @@ searchLoop:
 		c.NodeSizes[count]++
 
 		for k := p.nextChild; k < count; k++ {
+			verifPoint(verifRead)
 			a := atomic.LoadUint64(&data[k])
 			if a != 0 {
 				if isLeaf(a) {
diff --git a/delete.go b/delete.go
index c59a414..60224ac 100644
--- a/delete.go
+++ b/delete.go
@@ -78,6 +78,7 @@ func (op *DeleteOperation) prepare(key []byte) (found bool) {
 	op.Value = 0
 	op.allocator.startOp()
 S:
+	verifPoint(verifRestart)
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		op.kind = notFound
@@ -86,6 +87,7 @@ S:
 	if isLeaf(root) {
 		if len(key) > 0 && byte(root) == key[0] {
 			if !op.idx.lockLeafRoot(root) {
+				verifPoint(verifWait)
 				runtime.Gosched()
 				goto S
 			}
@@ -110,6 +112,7 @@ searchLoop:
 		_, op.node, count, prefixLen = explodeNode(op.raw)
 		// first fetch the current generation for node (it could actually be shared with multiple nodes)
 		op.nodeGen = op.idx.generation(op.node)
+		verifPoint(verifGeneration)
 		// now verify that the node has not been changed since we read it
 		if atomic.LoadUint64(op.nodePtr) != op.raw {
 			goto S
@@ -120,6 +123,7 @@ searchLoop:
 			goto S
 		}
 
+		verifPoint(verifRead)
 		block := int(op.node >> blockSlotsShift)
 		offset := int(op.node & blockSlotsOffsetMask)
 		op.data = op.idx.blocks[block].data[offset:]
@@ -158,6 +162,7 @@ searchLoop:
 			if isLeaf(a) {
 				// the node must be locked, otherwise it might be replaced by a copy where the leaf is not deleted
 				if !op.lock() {
+					verifPoint(verifWait)
 					runtime.Gosched()
 					goto S
 				}
@@ -194,6 +199,7 @@ searchLoop:
 
 					if isLeaf(otherChild) {
 						if !op.lock() {
+							verifPoint(verifWait)
 							runtime.Gosched()
 							goto S
 						}
@@ -224,6 +230,7 @@ searchLoop:
 
 					// fetch child generation
 					op.childGen = op.idx.generation(op.child)
+					verifPoint(verifGeneration)
 					// verify it's still the same
 					if atomic.LoadUint64(otherChildPtr) != otherChild {
 						goto S
@@ -231,6 +238,7 @@ searchLoop:
 
 					// we need to lock this node + it's parent + the child node
 					if !op.lock3() {
+						verifPoint(verifWait)
 						runtime.Gosched()
 						goto S
 					}
@@ -254,6 +262,7 @@ searchLoop:
 				}
 				op.count = count
 				if !op.lock() {
+					verifPoint(verifWait)
 					runtime.Gosched()
 					goto S
 				}
@@ -276,7 +285,9 @@ searchLoop:
 func (op *DeleteOperation) Finalize() (deleted bool) {
 	switch op.kind {
 	case deleteRoot:
+		verifPoint(verifPublish)
 		atomic.StoreUint64(&op.idx.root, 0)
+		verifPoint(verifUnlock)
 		op.idx.unlockRoot()
 		op.allocator.itemCounter--
 		deleted = true
@@ -284,8 +295,11 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 	case replaceNodeWithLeaf:
 		// PARAMETERS: op.node, op.parent, op.nodePtr, op.newLeaf, op.node, op.parent, op.count, op.prefixSlots
 		// replace the node with a leaf (the one not being deleted). the new leaf gets the byte key from the removed node
+		verifPoint(verifPublish)
 		atomic.StoreUint64(op.nodePtr, op.newLeaf)
+		verifPoint(verifUnlock)
 		op.unlock()
+		verifPoint(verifRecycle)
 		op.allocator.recycle(op.node, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
@@ -296,10 +310,13 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		src := op.data[op.prefixSlots : op.prefixSlots+op.count]
 		copy(dst, src)
 		// insert the new node into the tree
+		verifPoint(verifPublish)
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
+		verifPoint(verifUnlock)
 		op.unlock3()
 		// recycle the old node and the old child node
+		verifPoint(verifRecycle)
 		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
@@ -316,10 +333,13 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		// copy the rest of the node (after the removed leaf)
 		copy(dst[split:], src[split+1:])
 		// insert the new node into the tree, no need to compare and swap since this is checked after locking
+		verifPoint(verifPublish)
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count-1, op.prefixLen))
 		// unlock node+parent
+		verifPoint(verifUnlock)
 		op.unlock()
 		// recycle old node
+		verifPoint(verifRecycle)
 		op.allocator.recycle(op.node, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
@@ -328,7 +348,9 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		// PARAMETERS: op.leafPtr, op.raw
 		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
 		// TODO(oscar): replace with a leaf when there is only one child left
+		verifPoint(verifPublish)
 		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
+		verifPoint(verifUnlock)
 		op.unlock()
 		if deleted {
 			op.allocator.itemCounter--
diff --git a/hooks.go b/hooks.go
new file mode 100644
index 0000000..89838e2
--- /dev/null
+++ b/hooks.go
@@ -0,0 +1,25 @@
+package radix
+
+// Points of operations where instrumentation may be called, see hooks_on.go.
+const (
+	// the operation is (re)started from the root
+	verifRestart = iota
+	// between reading the generation of a node and verifying that the node is still in use
+	verifGeneration
+	// after an attempt to lock failed, or no allocator was free
+	verifWait
+	// before, and between, attempts to lock nodes
+	verifLock
+	// before a change is made visible
+	verifPublish
+	// after a change is made visible, but before locks are released
+	verifUnlock
+	// after locks are released, but before replaced nodes are recycled
+	verifRecycle
+	// between checking reservations and searching for reusable memory
+	verifAllocate
+	// the epoch was just reserved
+	verifReserve
+	// a node is about to be read
+	verifRead
+)
diff --git a/hooks_off.go b/hooks_off.go
new file mode 100644
index 0000000..12cc7c9
--- /dev/null
+++ b/hooks_off.go
@@ -0,0 +1,12 @@
+//go:build !verif
+// +build !verif
+
+package radix
+
+// Without the build tag verif there is no instrumentation, all of this is removed by the compiler.
+
+const verifEnabled = false
+
+func verifPoint(point int) {}
+
+func verifReuse(idx *Tree, node uint64, slots int) {}
diff --git a/hooks_on.go b/hooks_on.go
new file mode 100644
index 0000000..37e1597
--- /dev/null
+++ b/hooks_on.go
@@ -0,0 +1,25 @@
+//go:build verif
+// +build verif
+
+package radix
+
+const verifEnabled = true
+
+// VerifHook, if set, is called at the instrumented points of all operations. It must be set before any tree is used.
+var VerifHook func(point int)
+
+// VerifReuse, if set, is called with memory that was recycled and is about to be used again.
+var VerifReuse func(slots []uint64)
+
+func verifPoint(point int) {
+	if VerifHook != nil {
+		VerifHook(point)
+	}
+}
+
+func verifReuse(idx *Tree, node uint64, slots int) {
+	if VerifReuse != nil {
+		data := idx.blocks[node>>blockSlotsShift].data[node&blockSlotsOffsetMask:]
+		VerifReuse(data[:slots])
+	}
+}
diff --git a/iterator.go b/iterator.go
index ccfd686..f33ee6d 100644
--- a/iterator.go
+++ b/iterator.go
@@ -94,6 +94,7 @@ func (i *Iterator) Next() bool {
 	var prefix []byte
 preSearchLoop:
 	for depth < len(i.resumeAt) {
+		verifPoint(verifRead)
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
@@ -144,6 +145,7 @@ preSearchLoop:
 	i.prefetched = i.prefetched[:0]
 searchLoop:
 	for {
+		verifPoint(verifRead)
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
@@ -157,6 +159,7 @@ searchLoop:
 
 		// iterate over node children, they are guaranteed to be stored in order 👍
 		for k := nextChild; k < count; k++ {
+			verifPoint(verifRead)
 			a := atomic.LoadUint64(&data[k])
 			if a != 0 {
 				if isLeaf(a) {
@@ -230,6 +233,7 @@ func (i *Iterator) storeResumePosition(startDepth int) bool {
 	// traverse stack from start to end to build the partial key we should continue from
 	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:startDepth]...)
 	for j, pos := range i.stack {
+		verifPoint(verifRead)
 		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
diff --git a/locks.go b/locks.go
index 710f6f7..6e5f8be 100644
--- a/locks.go
+++ b/locks.go
@@ -14,6 +14,7 @@ func (idx *Tree) lockLeafRoot(expectedValue uint64) bool {
 	if !atomic.CompareAndSwapInt32(&idx.rootLeafLock, 0, 1) {
 		return false
 	}
+	verifPoint(verifLock)
 	if atomic.LoadUint64(&idx.root) != expectedValue {
 		atomic.AddInt32(&idx.rootLeafLock, -1)
 		return false
@@ -50,6 +51,7 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 	// lock child
 	block := child >> blockSlotsShift
 	lock := child & lockOffsetMask
+	verifPoint(verifLock)
 	if !atomic.CompareAndSwapInt32(&idx.blocks[block].locks[lock], childGen, childGen+1) {
 		return false
 	}
@@ -58,6 +60,7 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 	lock2 := node & lockOffsetMask
 	lock2Unique := lock2 != lock || block2 != block
 	if lock2Unique {
+		verifPoint(verifLock)
 		if !atomic.CompareAndSwapInt32(&idx.blocks[block2].locks[lock2], nodeGen, nodeGen+1) {
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
@@ -72,6 +75,7 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 	lock3 := parent & lockOffsetMask
 	lock3Unique := (lock3 != lock || block3 != block) && (lock3 != lock2 || block3 != block2)
 	if lock3Unique {
+		verifPoint(verifLock)
 		if !atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1) {
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			if lock2Unique {
@@ -140,6 +144,7 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 	// first lock node
 	block := node >> blockSlotsShift
 	lock := node & lockOffsetMask
+	verifPoint(verifLock)
 	if !atomic.CompareAndSwapInt32(&idx.blocks[block].locks[lock], nodeGen, nodeGen+1) {
 		return false
 	}
@@ -148,6 +153,7 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 	lock2 := parent & lockOffsetMask
 	lock2Unique := lock2 != lock || block2 != block
 	if lock2Unique {
+		verifPoint(verifLock)
 		if !atomic.CompareAndSwapInt32(&idx.blocks[block2].locks[lock2], parentGen, parentGen+1) {
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
@@ -189,6 +195,7 @@ func (idx *Tree) lockNode(node uint64, gen int32) bool {
 	}
 	block := node >> blockSlotsShift
 	lock := node & lockOffsetMask
+	verifPoint(verifLock)
 	return atomic.CompareAndSwapInt32(&idx.blocks[block].locks[lock], gen, gen+1)
 }
 
diff --git a/radix.go b/radix.go
index 1f99270..44032f1 100644
--- a/radix.go
+++ b/radix.go
@@ -370,6 +370,7 @@ func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	var buf []byte
 searchLoop:
 	for {
+		verifPoint(verifRead)
 		_, node, count, prefixLen := explodeNode(raw)
 		if depth >= len(searchPrefix) {
 			return raw, depth
@@ -461,6 +462,7 @@ func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
 	// iterate from top, children are ordered
 	// in a node-256 any child may be missing, and since they don't shrink it might even be empty
 	for k := count - 1; k >= 0; k-- {
+		verifPoint(verifRead)
 		a := atomic.LoadUint64(&data[k])
 		if a == 0 {
 			continue
@@ -501,6 +503,7 @@ func (idx *Tree) minLeaf(raw uint64) (v uint64, ok bool) {
 	// iterate from bottom, children are ordered
 	// in a node-256 any child may be missing, and since they don't shrink it might even be empty
 	for k := 0; k < count; k++ {
+		verifPoint(verifRead)
 		a := atomic.LoadUint64(&data[k])
 		if a == 0 {
 			continue
@@ -541,6 +544,7 @@ func (idx *Tree) search(key []byte) (uint64, bool) {
 	_, node, count, prefixLen := explodeNode(root)
 searchLoop:
 	for {
+		verifPoint(verifRead)
 		block := node >> (blockSlotsShift)
 		offset := int(node & blockSlotsOffsetMask)
 		data := idx.blocks[block].data[offset:]
diff --git a/slots.go b/slots.go
index dc071bb..f44471d 100644
--- a/slots.go
+++ b/slots.go
@@ -46,6 +46,7 @@ func (s *slots) get() int {
 				return i
 			}
 		}
+		verifPoint(verifWait)
 		runtime.Gosched()
 	}
 }
diff --git a/update.go b/update.go
index 33cfd95..c837aca 100644
--- a/update.go
+++ b/update.go
@@ -109,10 +109,12 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.prefixSlots = 0
 	op.allocator.startOp()
 S:
+	verifPoint(verifRestart)
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		// index is empty, lock root
 		if !op.idx.lockLeafRoot(root) {
+			verifPoint(verifWait)
 			runtime.Gosched()
 			goto S
 		}
@@ -123,6 +125,7 @@ S:
 	if isLeaf(root) {
 		// root is a leaf, acquire a root lock
 		if !op.idx.lockLeafRoot(root) {
+			verifPoint(verifWait)
 			runtime.Gosched()
 			goto S
 		}
@@ -152,6 +155,7 @@ searchLoop:
 		_, op.node, op.count, prefixLen = explodeNode(op.raw)
 		// first fetch the current generation for node (it could actually be shared with multiple nodes)
 		op.nodeGen = op.idx.generation(op.node)
+		verifPoint(verifGeneration)
 		// now verify that the node has not been changed since we read it
 		if atomic.LoadUint64(op.nodePtr) != op.raw {
 			goto S
@@ -162,6 +166,7 @@ searchLoop:
 			goto S
 		}
 
+		verifPoint(verifRead)
 		block := int(op.node >> blockSlotsShift)
 		offset := int(op.node & blockSlotsOffsetMask)
 		op.data = op.idx.blocks[block].data[offset:]
@@ -177,6 +182,7 @@ searchLoop:
 					// We are going to change data at nodePtrOffset, which is inside the data block of parent
 					// We will copy all children of node (node data block must also be protected)
 					if !op.lock() {
+						verifPoint(verifWait)
 						runtime.Gosched()
 						goto S
 					}
@@ -201,6 +207,7 @@ searchLoop:
 			a := atomic.LoadUint64(p)
 			if a == 0 {
 				if !op.lock() {
+					verifPoint(verifWait)
 					runtime.Gosched()
 					goto S
 				}
@@ -210,6 +217,7 @@ searchLoop:
 			}
 			if isLeaf(a) {
 				if !op.lock() {
+					verifPoint(verifWait)
 					runtime.Gosched()
 					goto S
 				}
@@ -242,6 +250,7 @@ searchLoop:
 		if b == op.k {
 			if isLeaf(a) {
 				if !op.lock() {
+					verifPoint(verifWait)
 					runtime.Gosched()
 					goto S
 				}
@@ -256,6 +265,7 @@ searchLoop:
 		}
 
 		if !op.lock() {
+			verifPoint(verifWait)
 			runtime.Gosched()
 			goto S
 		}
@@ -272,7 +282,9 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 	switch op.kind {
 
 	case replaceEmptyRootWithLeaf:
+		verifPoint(verifPublish)
 		updated = atomic.CompareAndSwapUint64(&op.idx.root, 0, buildLeaf(op.k, value))
+		verifPoint(verifUnlock)
 		op.idx.unlockRoot()
 		if updated {
 			op.allocator.itemCounter++
@@ -281,7 +293,9 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 	case replaceLeafRootWithNode:
 		newNode, data := op.idx.allocateNode(op.allocator, 2, 0)
 		addSortedChildren(data, op.currentLeaf, buildLeaf(op.k, value))
+		verifPoint(verifPublish)
 		updated = atomic.CompareAndSwapUint64((*uint64)(&op.idx.root), op.currentLeaf, buildNode(0, newNode, 2, 0))
+		verifPoint(verifUnlock)
 		op.idx.unlockRoot()
 		if updated {
 			op.allocator.itemCounter++
@@ -290,6 +304,7 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 	case rootLeafUpdate:
 		if op.Match {
 			// root is a leaf, and it was match, simply update it
+			verifPoint(verifPublish)
 			updated = atomic.CompareAndSwapUint64(&op.idx.root, op.currentLeaf, buildLeaf(op.k, value))
 		} else {
 			// check how many characters the keys have in common (we know it's >= 1)
@@ -306,11 +321,13 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 			addSortedChildren(data,
 				buildLeaf(op.Key[prefixLen], value),
 				updateLeafKey(op.currentLeaf, op.FetchedKey[prefixLen]))
+			verifPoint(verifPublish)
 			updated = atomic.CompareAndSwapUint64(&op.idx.root, op.currentLeaf, buildNode(0, newNode, 2, prefixLen))
 			if updated {
 				op.allocator.itemCounter++
 			}
 		}
+		verifPoint(verifUnlock)
 		op.idx.unlockRoot()
 
 	case nodePrefixMiss:
@@ -330,18 +347,23 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 		addSortedChildren(data,
 			buildLeaf(a, value),
 			buildNode(b, updatedNode, op.count, pl))
+		verifPoint(verifPublish)
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, 2, op.prefixMismatch))
 
+		verifPoint(verifUnlock)
 		op.unlock()
+		verifPoint(verifRecycle)
 		op.allocator.recycle(op.node, op.count+op.prefixSlots)
 		op.allocator.itemCounter++
 		updated = true
 
 	case nodeLeafInsert256:
+		verifPoint(verifPublish)
 		updated = atomic.CompareAndSwapUint64(op.leafPtr, 0, buildLeaf(op.k, value))
 		if updated {
 			op.allocator.itemCounter++
 		}
+		verifPoint(verifUnlock)
 		op.unlock()
 
 	case nodeLeafInsert:
@@ -360,8 +382,11 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 			copy(dst[split+1:], src[split:split+l])
 			// insert the new node into the tree, no need to compare and swap since this is checked after locking
 			v := buildNode(byte(op.raw), newNode, op.count+1, len(op.prefix))
+			verifPoint(verifPublish)
 			atomic.StoreUint64(op.nodePtr, v)
+			verifPoint(verifUnlock)
 			op.unlock()
+			verifPoint(verifRecycle)
 			op.allocator.recycle(op.node, op.count+op.prefixSlots)
 			op.allocator.itemCounter++
 			updated = true
@@ -384,9 +409,12 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 			}
 			// insert the new node
 			v := buildNode(byte(op.raw), newNode, 256, len(op.prefix))
+			verifPoint(verifPublish)
 			atomic.StoreUint64(op.nodePtr, v)
+			verifPoint(verifUnlock)
 			op.unlock()
 			// recycle old node
+			verifPoint(verifRecycle)
 			op.allocator.recycle(op.node, op.count+op.prefixSlots)
 			op.allocator.itemCounter++
 			updated = true
@@ -396,6 +424,7 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 		// These are pure leaf updates, so they never disconnected other nodes from the tree
 		if op.Match {
 			// compare and swap needed since leaf might have changed before we acquired the lock
+			verifPoint(verifPublish)
 			updated = atomic.CompareAndSwapUint64(op.leafPtr, op.currentLeaf, buildLeaf(op.k, value))
 		} else {
 			// key did not match, replace leaf with a NODE-2
@@ -413,11 +442,13 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 				buildLeaf(a, value),
 				updateLeafKey(op.currentLeaf, b),
 			)
+			verifPoint(verifPublish)
 			updated = atomic.CompareAndSwapUint64((*uint64)(op.leafPtr), op.currentLeaf, buildNode(op.k, newNode, 2, prefixLen))
 			if updated {
 				op.allocator.itemCounter++
 			}
 		}
+		verifPoint(verifUnlock)
 		op.unlock()
 	}
 	op.allocator.endOp()
@@ -433,6 +464,7 @@ func (op *UpdateOperation) Finalize(value uint64) (updated bool) {
 func (op *UpdateOperation) Abort() {
 	switch op.kind {
 	case replaceEmptyRootWithLeaf, replaceLeafRootWithNode, rootLeafUpdate:
+		verifPoint(verifUnlock)
 		op.idx.unlockRoot()
 	default:
 		op.unlock()
-- 
2.43.0


From d73e4a5ff91f941e2cbdf27eb9bc96f8bc85c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 23/27] fix: counter counted nodes again for each of their
 children

---
 counter.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index de348e2..0f9f4d2 100644
--- a/counter.go
+++ b/counter.go
@@ -70,17 +70,24 @@ searchLoop:
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
+				if p.nextChild == 0 {
+					c.LargePrefixes++
+				}
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
+			if p.nextChild == 0 {
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 			data = data[prefixSlots:]
 		}
 
-		c.NodeSizes[count]++
+		// if nextChild is not zero we have been here before
+		if p.nextChild == 0 {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			verifPoint(verifRead)
-- 
2.43.0


From 479aeaed3f810d1aa980ddc01f677ff3f2210d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:44 +0000
Subject: [PATCH 24/27] instrumentation points where allocators change hands
 (build tag verif)

---
 hooks.go | 4 ++++
 slots.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/hooks.go b/hooks.go
index 89838e2..1dfd5e1 100644
--- a/hooks.go
+++ b/hooks.go
@@ -22,4 +22,8 @@ const (
 	verifReserve
 	// a node is about to be read
 	verifRead
+	// an allocator was just acquired
+	verifAcquire
+	// an allocator was just released
+	verifRelease
 )
diff --git a/slots.go b/slots.go
index f44471d..815fe0d 100644
--- a/slots.go
+++ b/slots.go
@@ -43,6 +43,7 @@ func (s *slots) get() int {
 			// this looks silly, but by simple benchmarks it looks like this if still faster since CompareAndSwap is a relatively slow operation
 			a := atomic.LoadUint64(&s.slots[i].v)
 			if a == 0 && atomic.CompareAndSwapUint64(&s.slots[i].v, 0, 1) {
+				verifPoint(verifAcquire)
 				return i
 			}
 		}
@@ -54,4 +55,5 @@ func (s *slots) get() int {
 // put marks item i as available again.
 func (s *slots) put(i int) {
 	atomic.StoreUint64(&s.slots[i].v, 0)
+	verifPoint(verifRelease)
 }
-- 
2.43.0


From 26268bc7cbc9ae4b0bbde2e3eb295cd0a6268642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 25/27] instrumentation points while waiting to stop a tree
 (build tag verif)

---
 hooks_off.go |  2 ++
 hooks_on.go  | 10 ++++++++++
 radix.go     |  6 +++---
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/hooks_off.go b/hooks_off.go
index 12cc7c9..e700933 100644
--- a/hooks_off.go
+++ b/hooks_off.go
@@ -10,3 +10,5 @@ const verifEnabled = false
 func verifPoint(point int) {}
 
 func verifReuse(idx *Tree, node uint64, slots int) {}
+
+func verifLockStop(idx *Tree) { idx.stopLock.Lock() }
diff --git a/hooks_on.go b/hooks_on.go
index 37e1597..5ea05cf 100644
--- a/hooks_on.go
+++ b/hooks_on.go
@@ -3,6 +3,8 @@
 
 package radix
 
+import "runtime"
+
 const verifEnabled = true
 
 // VerifHook, if set, is called at the instrumented points of all operations. It must be set before any tree is used.
@@ -23,3 +25,11 @@ func verifReuse(idx *Tree, node uint64, slots int) {
 		VerifReuse(data[:slots])
 	}
 }
+
+// verifLockStop waits at an instrumented point, since only one goroutine may run in a controlled schedule
+func verifLockStop(idx *Tree) {
+	for !idx.stopLock.TryLock() {
+		verifPoint(verifWait)
+		runtime.Gosched()
+	}
+}
diff --git a/radix.go b/radix.go
index 44032f1..1ca8b7f 100644
--- a/radix.go
+++ b/radix.go
@@ -156,7 +156,7 @@ func (idx *Tree) countObjects() (count int64) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	idx.stopLock.Lock()
+	verifLockStop(idx)
 	defer idx.stopLock.Unlock()
 	if idx.stopped {
 		return
@@ -168,7 +168,7 @@ func (idx *Tree) Stop() {
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	idx.stopLock.Lock()
+	verifLockStop(idx)
 	defer idx.stopLock.Unlock()
 	if !idx.stopped {
 		return
@@ -179,7 +179,7 @@ func (idx *Tree) Start() {
 
 // whileStopped runs f while all allocators are withdrawn, leaving the tree stopped if it already was
 func (idx *Tree) whileStopped(f func()) {
-	idx.stopLock.Lock()
+	verifLockStop(idx)
 	defer idx.stopLock.Unlock()
 	if !idx.stopped {
 		idx.withdrawAllocators()
-- 
2.43.0


From faa6dc465926b2921475afb578772e7d004062a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 26/27] fix: lost update below a node being replaced by another
 operation

A writer passing a locked node could not see that the node was replaced
until it was unlocked. Nodes below may have been replaced meanwhile, and
the writer then locked and changed a node that is not part of the tree.
Verify that the locked nodes are still found from the root in this case.
---
 delete.go | 28 ++++++++++++++++++++++++++--
 locks.go  | 44 ++++++++++++++++++++++++++++++++++++++++++++
 update.go | 18 ++++++++++++++++--
 3 files changed, 86 insertions(+), 4 deletions(-)

diff --git a/delete.go b/delete.go
index 60224ac..8faba28 100644
--- a/delete.go
+++ b/delete.go
@@ -57,6 +57,11 @@ type DeleteOperation struct {
 	leafPosition int
 
 	prefix []byte
+
+	// the key to delete, only used during prepare
+	key []byte
+	// a node on the way was locked by another operation, and might have been replaced before it was left
+	passedLock bool
 }
 
 var deleteOperationPool = sync.Pool{
@@ -104,6 +109,8 @@ S:
 	op.raw = root
 	op.parent = 0
 	op.child = 0
+	op.key = key
+	op.passedLock = false
 
 	var depth, count, prefixLen int
 
@@ -122,6 +129,9 @@ searchLoop:
 		if op.parent != 0 && op.parentGen != op.idx.generation(op.parent) {
 			goto S
 		}
+		if op.nodeGen&1 == 1 {
+			op.passedLock = true
+		}
 
 		verifPoint(verifRead)
 		block := int(op.node >> blockSlotsShift)
@@ -388,7 +398,14 @@ func (op *DeleteOperation) String() (s string) {
 }
 
 func (op *DeleteOperation) lock() bool {
-	return op.idx.lockNodes2(op.node, op.nodeGen, op.parent, op.parentGen)
+	if !op.idx.lockNodes2(op.node, op.nodeGen, op.parent, op.parentGen) {
+		return false
+	}
+	if op.passedLock && !op.idx.attached(op.key, op.nodePtr) {
+		op.unlock()
+		return false
+	}
+	return true
 }
 
 func (op *DeleteOperation) unlock() {
@@ -396,7 +413,14 @@ func (op *DeleteOperation) unlock() {
 }
 
 func (op *DeleteOperation) lock3() bool {
-	return op.idx.lockNodes3(op.child, op.childGen, op.node, op.nodeGen, op.parent, op.parentGen)
+	if !op.idx.lockNodes3(op.child, op.childGen, op.node, op.nodeGen, op.parent, op.parentGen) {
+		return false
+	}
+	if op.passedLock && !op.idx.attached(op.key, op.nodePtr) {
+		op.unlock3()
+		return false
+	}
+	return true
 }
 
 func (op *DeleteOperation) unlock3() {
diff --git a/locks.go b/locks.go
index 6e5f8be..0267352 100644
--- a/locks.go
+++ b/locks.go
@@ -26,6 +26,50 @@ func (idx *Tree) unlockRoot() {
 	atomic.AddInt32(&idx.rootLeafLock, -1)
 }
 
+// attached reports whether nodePtr, the location of a pointer to a node, is still found when searching for key from the root.
+// The nodes on the way might get replaced meanwhile, but a search only arrives at nodes that were part of the tree
+// after it started. So if the node containing nodePtr is locked, it is part of the tree until it's unlocked.
+func (idx *Tree) attached(key []byte, nodePtr *uint64) bool {
+	p := &idx.root
+	depth := 0
+	for p != nodePtr {
+		raw := atomic.LoadUint64(p)
+		if raw == 0 || isLeaf(raw) {
+			return false
+		}
+		verifPoint(verifRead)
+		_, node, count, prefixLen := explodeNode(raw)
+		data := idx.blocks[node>>blockSlotsShift].data[node&blockSlotsOffsetMask:]
+		if prefixLen == 255 {
+			prefixLen = int(data[0])
+			data = data[(prefixLen+15)>>3:]
+		} else {
+			data = data[(prefixLen+7)>>3:]
+		}
+		depth += prefixLen
+		if depth >= len(key) {
+			return false
+		}
+		k := key[depth]
+		depth++
+		if count >= fullAllocFrom {
+			p = &data[int(k)]
+			continue
+		}
+		p = nil
+		for i := range data[:count] {
+			if byte(atomic.LoadUint64(&data[i])) == k {
+				p = &data[i]
+				break
+			}
+		}
+		if p == nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (idx *Tree) generation(node uint64) int32 {
 	block := node >> blockSlotsShift
 	lock := node & lockOffsetMask
diff --git a/update.go b/update.go
index c837aca..8f1a90e 100644
--- a/update.go
+++ b/update.go
@@ -78,6 +78,9 @@ type UpdateOperation struct {
 
 	// current raw value of node
 	raw uint64
+
+	// a node on the way was locked by another operation, and might have been replaced before it was left
+	passedLock bool
 }
 
 var updateOperationPool = sync.Pool{
@@ -148,6 +151,7 @@ S:
 	op.raw = root
 	op.parent = 0
 	op.parentGen = 0
+	op.passedLock = false
 	prefixLen := 0
 
 searchLoop:
@@ -165,6 +169,9 @@ searchLoop:
 		if op.parent != 0 && op.parentGen != op.idx.generation(op.parent) {
 			goto S
 		}
+		if op.nodeGen&1 == 1 {
+			op.passedLock = true
+		}
 
 		verifPoint(verifRead)
 		block := int(op.node >> blockSlotsShift)
@@ -488,9 +495,16 @@ func (op *UpdateOperation) String() (s string) {
 	return s
 }
 
-// lock is inlined by compiler
+// lock locks node and its parent
 func (op *UpdateOperation) lock() bool {
-	return op.idx.lockNodes2(op.node, op.nodeGen, op.parent, op.parentGen)
+	if !op.idx.lockNodes2(op.node, op.nodeGen, op.parent, op.parentGen) {
+		return false
+	}
+	if op.passedLock && !op.idx.attached(op.Key, op.nodePtr) {
+		op.unlock()
+		return false
+	}
+	return true
 }
 
 // unlock is inlined by compiler
-- 
2.43.0


From aff14a01603d50e8583b9e110dd83153c4126ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 27/27] verif: instrument the window before locking the root

---
 locks.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/locks.go b/locks.go
index 0267352..8e9e599 100644
--- a/locks.go
+++ b/locks.go
@@ -11,6 +11,7 @@ import (
 // This way writers can check if a node might have been changed or detached since they accessed it, and restart their operations.
 
 func (idx *Tree) lockLeafRoot(expectedValue uint64) bool {
+	verifPoint(verifLock)
 	if !atomic.CompareAndSwapInt32(&idx.rootLeafLock, 0, 1) {
 		return false
 	}
-- 
2.43.0

