From 2be9b6402e4df2a833633dc6cb8e31ab8d626292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:33 +0000
Subject: [PATCH 01/34] fix: Deque keeps wrapped elements when
 growing/shrinking and Shrink reports its result

The tail part of a wrapped ring was copied over the start of the new buffer
(d[:h]) instead of behind the head part (d[h:]), losing elements; Shrink's
result was shadowed and always false. Same change in the templates.
---
 stl/deque.gp_int.go | 8 ++++----
 stl/gp/deque.gp     | 8 ++++----
 stl/gp/deque.gp.go  | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 0a74d3755ef9959c47249f30a54432a576454179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:18 +0000
Subject: [PATCH 02/34] fix: Queue detects a full buffer at every offset and
 keeps wrapped elements

A full ring was noticed only when the write position wrapped to 0, so meeting
the read position elsewhere lost all elements; the wrapped part was copied to
the wrong place; Shrink sized the buffer from the element count and its result
was shadowed. Same change in the templates.
---
 stl/gp/queue.gp     | 22 +++++++++++-----------
 stl/gp/queue.gp.go  | 22 +++++++++++-----------
 stl/queue.gp_int.go | 22 +++++++++++-----------
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -126,16 +126,16 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -223,16 +223,16 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -120,16 +120,16 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From c017e736cac18a929741b0a718275dd0410454e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:58 +0000
Subject: [PATCH 03/34] fix: Heap.Reverse accepts an empty slice

The loop started at index 0 even for an empty slice and panicked.
---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..a7fc6ee 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..326b88d 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..4a25c05 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := len(b)/2 - 1; i >= 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From 0e8fe7b348d4370fdb432c5bdcbe64e57866966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 04/34] fix: List keeps its links and order in InsertAfter,
 moves, splices and Reverse

InsertAfter did not update the back link of the following node; InsertFrontList
rotated by one element only; Reachable/IsValidNode never looked past the first
node; MoveBack of the front node corrupted the ring; MoveBefore the front and
MoveAfter the back were lost on the circular links; Reverse kept one element.
Same change in the templates.
---
 stl/gp/list.gp     | 36 ++++++++++++++++++++++++------------
 stl/gp/list.gp.go  | 36 ++++++++++++++++++++++++------------
 stl/list.gp_int.go | 36 ++++++++++++++++++++++++------------
 3 files changed, 72 insertions(+), 36 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..45a52ac 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
@@ -244,9 +244,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertBefore(node, mark *<GLOBAL_NAME_PREF
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (n *<GLOBAL_NAME_PREFIX>ListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
@@ -277,7 +278,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
@@ -298,7 +299,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
@@ -311,19 +315,22 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
@@ -339,10 +346,15 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if this.head != nil {
+		for n := this.head; ; {
+			next := n.next
+			n.next, n.prev = n.prev, next
+			if n = next; n == this.head {
+				break
+			}
+		}
+		this.head = this.head.next //old back
 	}
 }
 
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..190ae6d 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
@@ -341,9 +341,10 @@ func (this *GOGPGlobalNamePrefixList) InsertBefore(node, mark *GOGPGlobalNamePre
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePrefixListNode) (n *GOGPGlobalNamePrefixListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
@@ -374,7 +375,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
@@ -395,7 +396,10 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
@@ -408,19 +412,22 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
@@ -436,10 +443,15 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if this.head != nil {
+		for n := this.head; ; {
+			next := n.next
+			n.next, n.prev = n.prev, next
+			if n = next; n == this.head {
+				break
+			}
+		}
+		this.head = this.head.next //old back
 	}
 }
 
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..58394af 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
@@ -238,9 +238,10 @@ func (this *IntList) InsertBefore(node, mark *IntListNode) (n *IntListNode) {
 }
 
 func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
@@ -271,7 +272,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
@@ -292,7 +293,10 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.head = node.next
+		}
 		node.next.prev = node.prev
 		node.prev.next = node.next
 		node.next = this.head
@@ -305,19 +309,22 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if mark == this.head {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
@@ -333,10 +340,15 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	if this.head != nil {
+		for n := this.head; ; {
+			next := n.next
+			n.next, n.prev = n.prev, next
+			if n = next; n == this.head {
+				break
+			}
+		}
+		this.head = this.head.next //old back
 	}
 }
 
-- 
2.43.0


From 1d8f6897ac2967d8c98bc227b5fa10669028c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:18 +0000
Subject: [PATCH 05/34] fix: SList visitor, Empty, HasCycle, Reachable and
 PushFrontList report and keep the nodes

---
 stl/gp/slist.gp     | 11 ++++++-----
 stl/gp/slist.gp.go  | 11 ++++++-----
 stl/slist.gp_int.go | 12 ++++++------
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..ed0526a 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
@@ -181,7 +181,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 	//#GOGP_ELSE
 	t, _ = other.head.next.Tail()
 	//#GOGP_ENDIF
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
 		//#GOGP_IFDEF GOGP_HasTail
@@ -189,6 +189,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
@@ -329,7 +330,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
@@ -351,7 +352,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..c414c18 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
@@ -278,7 +278,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 	//#GOGP_ELSE
 	t, _ = other.head.next.Tail()
 	//#GOGP_ENDIF
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
 		//#GOGP_IFDEF GOGP_HasTail
@@ -286,6 +286,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
@@ -426,7 +427,7 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
@@ -448,7 +449,7 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..49f36f3 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
@@ -136,10 +136,10 @@ func (this *IntSList) PushFrontList(other *IntSList) {
 
 	t, _ = other.head.next.Tail()
 
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
-
+		other.Clear()
 	}
 }
 
@@ -238,7 +238,7 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
+	for slow, fast := head, head; fast != nil; {
 		fast = fast.next
 		if ok = fast != nil; !ok {
 			break
@@ -260,7 +260,7 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 7b96e732654adae82eb3d0764bee2c7fe9819bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:41 +0000
Subject: [PATCH 06/34] fix: SortSlice.Insert shifts instead of overwriting,
 Pop of an empty slice fails quietly

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 8 ++++----
 stl/gp/sort_slice.gp                      | 8 ++++----
 stl/gp/sort_slice.gp.go                   | 8 ++++----
 stl/sort_slice.gp_#inttreenodeb60b.go     | 8 ++++----
 stl/sort_slice.gp_int.go                  | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..5f81b1e 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,9 +70,9 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..caf9a03 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,9 +76,9 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..dc608e2 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,9 +173,9 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..95d20e4 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,9 +70,9 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..d6b02bb 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,9 +70,9 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From cca7695fa265bd9b227fad547f59688b7be4a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 07/34] fix: RWSpinLock excludes readers from writers and never
 loses a release

---
 sync/spinrwlock.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..526ff71 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -11,18 +11,28 @@ const (
 type RWSpinLock struct {
 	w           SpinLock
 	readerCount int32
+	writing     int32 //1 while a writer holds the lock
 	//readerWait  int32
 }
 
 func (this *RWSpinLock) Lock() {
 	this.w.Lock()                                             //get writer lock first
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ {
+		if i > spinLockMaxLoop { //give up, let the others go on
+			atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders)
+			this.w.Unlock()
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+	}
+	atomic.StoreInt32(&this.writing, 1)
 }
 
 func (this *RWSpinLock) Unlock() {
-	if r := atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders); r >= rwSpinLockMaxReaders {
+	if !atomic.CompareAndSwapInt32(&this.writing, 1, 0) {
 		panic("[sync] Unlock on unlocked RWSpinLock")
 	}
+	atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders)
 	this.w.Unlock()
 }
 
@@ -33,21 +43,20 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
 func (this *RWSpinLock) RUnlock() {
-	if r := atomic.AddInt32(&this.readerCount, -1); r < 0 {
-		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
+	for {
+		r := atomic.LoadInt32(&this.readerCount)
+		if r == 0 || r == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
+		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
+			break
 		}
 	}
 }
-- 
2.43.0


From fce518dc8a717812c49bff23ec415ca91a64e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 08/34] fix: Fingerprint.Reset clears the length, hash sums
 append, null hashes accept writes and get unique ids concurrently

---
 hash/finger_print.go | 3 ++-
 hash/none_hash.go    | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..a8f9bf4 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -48,7 +48,7 @@ func (this *Fingerprint) Write(p []byte) (n int, err error) {
 }
 
 func (this *Fingerprint) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b)
 	size := uint64(this.size & 0xFFFFFFFFFFFF)
 	for i := uint(6); i > 0; i-- {
 		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
@@ -63,6 +63,7 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..723b740 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
@@ -24,11 +24,11 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b)
 	id := this.id
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
-- 
2.43.0


From a5aa55fde2453c6e376ac4a8b610fffe3c29829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:42 +0000
Subject: [PATCH 09/34] fix: RangeUint32/RangeUInt64 report out-of-range
 values, overflow and zero divisors again

---
 math/range_uint32.go | 23 +++++++++--------------
 math/range_uint64.go | 26 ++++++++++----------------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..021d03d 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -3,11 +3,6 @@ package math
 import (
 	"fmt"
 	"math"
-	//aerr "vipally.gmail.com/basic/errors"
-)
-
-var (
-//errid_ru32_full, _ = aerr.Reg("[RangeUint32] out of range")
 )
 
 //ranged uint32 object
@@ -41,7 +36,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +44,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +53,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +61,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +77,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +130,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..fb0b4e3 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -8,12 +8,6 @@ package math
 import (
 	"fmt"
 	"math"
-	//aerr "vipally.gmail.com/basic/errors"
-)
-
-var (
-//errid_ru64_full, _     = aerr.Reg("[RangeUInt64] out of range")
-//errid_min_max_error, _ = aerr.Reg("[min > max error]")
 )
 
 //ranged uint64 object
@@ -47,7 +41,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +49,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +58,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +66,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +74,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +82,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +130,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 06f23fef2af1bbcdde312870305b56935c3cfb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:42 +0000
Subject: [PATCH 10/34] fix: IsPrime divides by the table primes up to the
 square root

---
 math/prime/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..0b23baf 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,7 +11,7 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
+	max := SqrtUint32(num)
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
 		if prime > max {
-- 
2.43.0


From d7d85a6b9bee826a0ad0428f0cc70ebfb69fc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 11/34] fix: Copys delivers self-writing sources to every
 destination and notices short writes and empty buffers

---
 io/io.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..562f58e 100644
--- a/io/io.go
+++ b/io/io.go
@@ -13,15 +13,10 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
 	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+		return wt.WriteTo(io.MultiWriter(dsts...))
 	}
 
-	if buf == nil {
+	if len(buf) == 0 {
 		buf = make([]byte, 32*1024)
 	}
 ReadAll:
@@ -34,6 +29,9 @@ ReadAll:
 					err = ew
 					break ReadAll
 				}
+				if nw != nr { //short write
+					break
+				}
 			}
 			if nw > 0 {
 				written += int64(nw)
-- 
2.43.0


From 24a9b349b07a2724ff6fa9a5c0c2e3707bb57119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 12/34] fix: Writeable recognises heap memory below the first
 heap object

---
 unsafe/string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..0d0b55d 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -6,8 +6,10 @@ import (
 )
 
 var (
-	//dynamic data address
-	firstPointer = uintptr(unsafe.Pointer(new(int)))
+	//a variable of the data segment, which lies above all read-only data and below the heap
+	dataMark = 1
+	//first writeable data address
+	firstPointer = uintptr(unsafe.Pointer(&dataMark))
 )
 
 type Pointer unsafe.Pointer
-- 
2.43.0


From 56434beeb572c0d49bc250fc6601fc98233d56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 13/34] fix: padding never writes into the caller's spare
 capacity

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From 7bf997c6a388ca09bfcbd61cce78c7c5863d16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:42 +0000
Subject: [PATCH 14/34] fix: factories register and remove creators

---
 factory/factoryi.go | 15 +++++++++++++++
 factory/factorys.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..d025870 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -1,5 +1,9 @@
 package factory
 
+import (
+	"fmt"
+)
+
 func NewFactoryI() *FactoryI {
 	return &FactoryI{cmap: make(map[int]Creater)}
 }
@@ -9,10 +13,21 @@ type FactoryI struct {
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	if creater == nil {
+		return fmt.Errorf("[FactoryI] AddCreater(%d) with nil creater", nType)
+	}
+	if _, ok := me.cmap[nType]; ok {
+		return fmt.Errorf("[FactoryI] AddCreater(%d) duplicate", nType)
+	}
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	if _, ok := me.cmap[nType]; !ok {
+		return fmt.Errorf("[FactoryI] RemoveCreater(%d) not found", nType)
+	}
+	delete(me.cmap, nType)
 	return nil
 }
 
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..4c75821 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -1,5 +1,9 @@
 package factory
 
+import (
+	"fmt"
+)
+
 func NewFactoryS() *FactoryS {
 	return &FactoryS{cmap: make(map[string]Creater)}
 }
@@ -9,10 +13,21 @@ type FactoryS struct {
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	if creater == nil {
+		return fmt.Errorf("[FactoryS] AddCreater(%q) with nil creater", typename)
+	}
+	if _, ok := me.cmap[typename]; ok {
+		return fmt.Errorf("[FactoryS] AddCreater(%q) duplicate", typename)
+	}
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	if _, ok := me.cmap[typename]; !ok {
+		return fmt.Errorf("[FactoryS] RemoveCreater(%q) not found", typename)
+	}
+	delete(me.cmap, typename)
 	return nil
 }
 
-- 
2.43.0


From 17228b037e8803f798a34ba01ab026bd2b4101b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 15/34] fix: back-traces name inlined functions and call lines
 correctly

---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..58ef446 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[:n])
+	for i, more := 0, n > 0; more; i++ {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	frames := runtime.CallersFrames(__pcs[:n])
+	for more := n > 0; more; {
+		var _f runtime.Frame
+		_f, more = frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From 45a96998fe8341e3ce5cb07afc86302c1c5fb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:57 +0000
Subject: [PATCH 16/34] fix: time declares timeSys.autoUpdate once, so that it
 and math/rand, strings and tasks compile

---
 time/time_sys.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..1aecffb 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -31,10 +31,6 @@ func (this *timeSys) init() {
 
 }
 
-func (this *timeSys) autoUpdate() {
-
-}
-
 func (this *timeSys) Start() {
 
 }
-- 
2.43.0


From 50ddc18ffd2cb6ed8ce46d763917785718001730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:57 +0000
Subject: [PATCH 17/34] fix: RandRange over the full range of the type does not
 divide by zero

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..810f322 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..7dc6988 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..3d77fb2 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From 0dd24cf2c7e37f7db3baa2269b4fcedb5def69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:57 +0000
Subject: [PATCH 18/34] fix: errors declares Reg once, so that it compiles

---
 errors/interface.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..dfd2bbd 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -15,11 +15,6 @@ type ErrorObj struct {
 	Para []interface{}
 }
 
-//regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
-	return 0
-}
-
 type ErrorInfo struct {
 	content string
 	name    string
-- 
2.43.0


From 5254384e23dee31ae725784795da2069004d3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 19/34] fix: the standard error id has its own id and keeps its
 name

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..89171a3 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error")
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  = ERRID_UNKNOWN
 )
 
 const (
-- 
2.43.0


From 50e95793bf3cd4a6430f8b60e17e1db13181990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 20/34] fix: StdErr does not take the error's text for a format

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 89171a3..1a2a317 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -132,5 +132,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 121796e56b03d3406e20a9d656801048bcb4f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 21/34] fix: ShowAll lists as many errors as it counts while
 others register

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 1a2a317..a42eda1 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -94,10 +94,13 @@ func Reg(_err_name string) (id errId, err error) {
 }
 
 func ShowAll() string {
+	g_id2err_lock.RLock()
+	max := g_id_cur_max
+	g_id2err_lock.RUnlock()
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	s := fmt.Sprintf("[errors] Count:%d", max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From ec657c42d4ebd6d55ca82b68e6bde8dfb60c91de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 22/34] fix: regable imports the packages it uses by their
 present names, so that it compiles

---
 regable/reg.go     | 4 ++--
 regable/reg.gp     | 4 ++--
 regable/regable.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..43fe26b 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -25,8 +25,8 @@ import (
 	"fmt"
 	"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..6b1063f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -5,8 +5,8 @@ import (
 	"fmt"
 	<LOCK_COMMENT>"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..0bd94d7 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	acst "github.com/vipally/gx/consts"
+	aerr "github.com/vipally/gx/errors"
 )
 
 const (
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(acst.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From a07be7bc75c6deb8e1c3b55afad48286f02dbd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 23/34] fix: a registry holds as many values as its maximum
 says, and its current id range is what it handed out

---
 regable/reg.go | 12 ++++++------
 regable/reg.gp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 43fe26b..c39613e 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -34,7 +34,7 @@ const (
 )
 
 var (
-	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_u32_id, _  = aerr.Reg("Uint32Id error")
 	errid_u32_obj, _ = aerr.Reg("Uint32 object error")
 )
@@ -57,10 +57,10 @@ func NewUint32Reger(name string) (r *Uint32Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_u32_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_u32_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_u32_rgr_id_gen.Val()
 	p := new(Uint32Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -101,7 +101,7 @@ type Uint32Reger struct {
 
 func (me *Uint32Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_u32_reg_cnt); err != nil {
 		return
 	}
@@ -130,13 +130,13 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
diff --git a/regable/reg.gp b/regable/reg.gp
index 6b1063f..245689e 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -14,7 +14,7 @@ const (
 )
 
 var (
-	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_<TYPENAME_L_SHORT>_id, _  = aerr.Reg("<TYPENAME_U>Id error")
 	errid_<TYPENAME_L_SHORT>_obj, _ = aerr.Reg("<TYPENAME_U> object error")
 )
@@ -37,10 +37,10 @@ func New<TYPENAME_U>Reger(name string) (r *<TYPENAME_U>Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_<TYPENAME_L_SHORT>_rgr_id_gen.Val()
 	p := new(<TYPENAME_U>Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -81,7 +81,7 @@ type <TYPENAME_U>Reger struct {
 
 func (me *<TYPENAME_U>Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_<TYPENAME_L_SHORT>_reg_cnt); err != nil {
 		return
 	}
@@ -110,13 +110,13 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
-- 
2.43.0


From ff3ac65bc200a660793ae98016e1dad1c7f6148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 24/34] fix: ids that were never handed out give an error
 instead of an index panic

---
 regable/reg.go | 2 ++
 regable/reg.gp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/regable/reg.go b/regable/reg.go
index c39613e..e7d47ee 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -191,10 +191,12 @@ func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 245689e..4c28501 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -171,10 +171,12 @@ func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, e
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From 51db2e510c7b1960c534e2d9333fa2268a88731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 25/34] fix: an object's Id is the id its registration returned

---
 regable/reg.go | 2 +-
 regable/reg.gp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index e7d47ee..64ec8df 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -138,7 +138,7 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 4c28501..4377413 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -118,7 +118,7 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
 	return
-- 
2.43.0


From 7a0eceec0088a1d1ed6ef4ddf03daa51088f358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 26/34] fix: fs names its tree's child list and values as
 generated, so that it compiles

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From e83574938000e4b78cc3116dfbd1de81018ede15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 27/34] fix: CollectSubs reports a directory it cannot read

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From a1d7787fc84d8e3dd9867c9d8cddeb8bf6da0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 28/34] fix: absolute destinations of Rename, Move, Link and
 Symlink are taken as they are

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..50f1178 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -339,7 +339,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From ed58a9fdf6b43740042969c8c511043997586dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 29/34] fix: Move with a relative path relates the destination
 only once

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 50f1178..2f42de7 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -493,7 +493,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 98b1ad22f21917209244f55764cac65b0c33487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 30/34] fix: Fingerprint and Hash report a file they cannot
 read to its end

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 2f42de7..87708ea 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -423,7 +423,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -472,7 +474,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From f637e25fd84557471eb4e06f067ff2d80e27f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:13 +0000
Subject: [PATCH 31/34] fix: crypto/ecb and crypto/rsa import this repository's
 packages and compile

---
 crypto/ecb/ecb.go  | 2 +-
 crypto/rsa/code.go | 2 +-
 crypto/rsa/rsa.go  | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From 0992df1508b6d95dfd62bd0fec7f6e593b1fb14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:13 +0000
Subject: [PATCH 32/34] fix: NewClient reports a public key that is not an RSA
 key

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From 35660442e284badc91a70825d4efd32fc24d3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:06 +0000
Subject: [PATCH 33/34] fix: GoPath is the first entry of GOPATH, whatever
 separates the entries on this system

---
 fs/file_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..ef1e971 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -45,7 +45,7 @@ func Func() (f string) {
 func goPath() (p string) {
 	//get GoPath
 	s := os.Getenv("GOPATH")
-	if ss := strings.Split(s, ";"); ss != nil && len(ss) > 0 {
+	if ss := strings.Split(s, string(os.PathListSeparator)); ss != nil && len(ss) > 0 {
 		p = FormatPath(ss[0] + "/src/")
 	}
 	return
-- 
2.43.0


From 5959fefa609c4a191345eb3101bb70b0417240e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:11 +0000
Subject: [PATCH 34/34] fix: SplitAll of a related path does not index before
 the first element

---
 fs/file_path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fs/file_path.go b/fs/file_path.go
index 87708ea..92f11cb 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -205,6 +205,9 @@ func (me FilePathObject) SplitAll() []string {
 			break
 		}
 	}
+	if i < 0 { //a related path, every item of b is used
+		i = 0
+	}
 	return b[i:]
 }
 
-- 
2.43.0

