From d6cca5fdd8f1ad6d6c092ff06062726dca4fbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:55 +0000
Subject: [PATCH 1/6] fix: Store and LoadOrStore must not accept a node readers
 cannot see yet

A call that found a node which another goroutine had linked but not yet
published (fullyLinked) used it and returned; the same goroutine's next
Load, Delete or Range then still missed the key.
---
 gen_func.go        | 15 ++++++---------
 gen_int.go         | 15 ++++++---------
 gen_int32.go       | 15 ++++++---------
 gen_int32desc.go   | 15 ++++++---------
 gen_int64.go       | 15 ++++++---------
 gen_int64desc.go   | 15 ++++++---------
 gen_intdesc.go     | 15 ++++++---------
 gen_ordered.go     | 15 ++++++---------
 gen_ordereddesc.go | 15 ++++++---------
 gen_string.go      | 15 ++++++---------
 gen_stringdesc.go  | 15 ++++++---------
 gen_uint.go        | 15 ++++++---------
 gen_uint32.go      | 15 ++++++---------
 gen_uint32desc.go  | 15 ++++++---------
 gen_uint64.go      | 15 ++++++---------
 gen_uint64desc.go  | 15 ++++++---------
 gen_uintdesc.go    | 15 ++++++---------
 skipmap.tpl        | 15 ++++++---------
 18 files changed, 108 insertions(+), 162 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 8653cae..e6363ec 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -123,12 +123,11 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -289,11 +288,10 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -359,11 +357,10 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_int.go b/gen_int.go
index d833df1..8e1676d 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -121,12 +121,11 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_int32.go b/gen_int32.go
index 0e934b6..85f5628 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -121,12 +121,11 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 40d61e1..018a3e9 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -121,12 +121,11 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_int64.go b/gen_int64.go
index e089813..5d9d4f6 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -121,12 +121,11 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 3fa40fa..65bde67 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -121,12 +121,11 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_intdesc.go b/gen_intdesc.go
index eb274b5..be92c05 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -121,12 +121,11 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_ordered.go b/gen_ordered.go
index c1c5abb..c088269 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -121,12 +121,11 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 6a944f9..b604012 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -121,12 +121,11 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_string.go b/gen_string.go
index 6e46134..acc7680 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -121,12 +121,11 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index b28a632..a6cf769 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -121,12 +121,11 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uint.go b/gen_uint.go
index d266c27..e965eb3 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -121,12 +121,11 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uint32.go b/gen_uint32.go
index 648c8e1..3813aef 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -121,12 +121,11 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index c994276..b7365de 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -121,12 +121,11 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uint64.go b/gen_uint64.go
index e29247f..e387136 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -121,12 +121,11 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 9d24953..939e8c5 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -121,12 +121,11 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 106d4e5..3d74eea 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -121,12 +121,11 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -287,11 +286,10 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -357,11 +355,10 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
diff --git a/skipmap.tpl b/skipmap.tpl
index 0f6aea7..a48cb05 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -120,12 +120,11 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just replace the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				nodeFound.storeVal(value)
 				return
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -286,11 +285,10 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
@@ -356,11 +354,10 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if !nodeFound.flags.Get(marked) {
-				// We don't need to care about whether or not the node is fully linked,
-				// just return the value.
+			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nodeFound.loadVal(), true
 			}
+			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
 			// If the node is marked, represents some other goroutines is in the process of deleting this node,
 			// we need to add this node in next loop.
 			continue
-- 
2.43.0


From 47b12e62ec6904a17e5de79ef126ed2eef522d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 2/6] fix: LoadAndDelete must return the last value stored
 before the deletion

A Store that had seen the node unmarked could write its value after
LoadAndDelete had read the old one: both returned, but the stored value
was neither in the map nor reported by LoadAndDelete.
---
 gen_func.go        | 31 ++++++++++++++++++++++++++++---
 gen_int.go         | 31 ++++++++++++++++++++++++++++---
 gen_int32.go       | 31 ++++++++++++++++++++++++++++---
 gen_int32desc.go   | 31 ++++++++++++++++++++++++++++---
 gen_int64.go       | 31 ++++++++++++++++++++++++++++---
 gen_int64desc.go   | 31 ++++++++++++++++++++++++++++---
 gen_intdesc.go     | 31 ++++++++++++++++++++++++++++---
 gen_ordered.go     | 31 ++++++++++++++++++++++++++++---
 gen_ordereddesc.go | 31 ++++++++++++++++++++++++++++---
 gen_string.go      | 31 ++++++++++++++++++++++++++++---
 gen_stringdesc.go  | 31 ++++++++++++++++++++++++++++---
 gen_uint.go        | 31 ++++++++++++++++++++++++++++---
 gen_uint32.go      | 31 ++++++++++++++++++++++++++++---
 gen_uint32desc.go  | 31 ++++++++++++++++++++++++++++---
 gen_uint64.go      | 31 ++++++++++++++++++++++++++++---
 gen_uint64desc.go  | 31 ++++++++++++++++++++++++++++---
 gen_uintdesc.go    | 31 ++++++++++++++++++++++++++++---
 skipmap.tpl        | 31 ++++++++++++++++++++++++++++---
 18 files changed, 504 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index e6363ec..d431067 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -46,6 +46,32 @@ func (n *funcnode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *funcnode[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *funcnode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *funcnode[keyT, valueT]) loadNext(i int) *funcnode[keyT, valueT] {
 	return (*funcnode[keyT, valueT])(n.next.load(i))
 }
@@ -123,8 +149,7 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -269,7 +294,7 @@ func (s *FuncMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int.go b/gen_int.go
index 8e1676d..e1060e7 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -44,6 +44,32 @@ func (n *intnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *intnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *intnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *intnode[valueT]) loadNext(i int) *intnode[valueT] {
 	return (*intnode[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *IntMap[valueT]) LoadAndDelete(key int) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32.go b/gen_int32.go
index 85f5628..260fcf1 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -44,6 +44,32 @@ func (n *int32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *int32node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *int32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int32node[valueT]) loadNext(i int) *int32node[valueT] {
 	return (*int32node[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Int32Map[valueT]) LoadAndDelete(key int32) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 018a3e9..640fb00 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -44,6 +44,32 @@ func (n *int32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *int32nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *int32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int32nodeDesc[valueT]) loadNext(i int) *int32nodeDesc[valueT] {
 	return (*int32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Int32MapDesc[valueT]) LoadAndDelete(key int32) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64.go b/gen_int64.go
index 5d9d4f6..ff64c47 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -44,6 +44,32 @@ func (n *int64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *int64node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *int64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int64node[valueT]) loadNext(i int) *int64node[valueT] {
 	return (*int64node[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Int64Map[valueT]) LoadAndDelete(key int64) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 65bde67..ac77008 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -44,6 +44,32 @@ func (n *int64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *int64nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *int64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *int64nodeDesc[valueT]) loadNext(i int) *int64nodeDesc[valueT] {
 	return (*int64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Int64MapDesc[valueT]) LoadAndDelete(key int64) (value valueT, loaded bo
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_intdesc.go b/gen_intdesc.go
index be92c05..85350ac 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -44,6 +44,32 @@ func (n *intnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *intnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *intnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *intnodeDesc[valueT]) loadNext(i int) *intnodeDesc[valueT] {
 	return (*intnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *IntMapDesc[valueT]) LoadAndDelete(key int) (value valueT, loaded bool)
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordered.go b/gen_ordered.go
index c088269..4a3d4ec 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -44,6 +44,32 @@ func (n *orderednode[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *orderednode[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *orderednode[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *orderednode[keyT, valueT]) loadNext(i int) *orderednode[keyT, valueT] {
 	return (*orderednode[keyT, valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *OrderedMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index b604012..ab4cb76 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -44,6 +44,32 @@ func (n *orderednodeDesc[keyT, valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *orderednodeDesc[keyT, valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *orderednodeDesc[keyT, valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *orderednodeDesc[keyT, valueT]) loadNext(i int) *orderednodeDesc[keyT, valueT] {
 	return (*orderednodeDesc[keyT, valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, lo
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_string.go b/gen_string.go
index acc7680..034cea1 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -44,6 +44,32 @@ func (n *stringnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *stringnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *stringnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *stringnode[valueT]) loadNext(i int) *stringnode[valueT] {
 	return (*stringnode[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *StringMap[valueT]) LoadAndDelete(key string) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index a6cf769..2098e3e 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -44,6 +44,32 @@ func (n *stringnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *stringnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *stringnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *stringnodeDesc[valueT]) loadNext(i int) *stringnodeDesc[valueT] {
 	return (*stringnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *StringMapDesc[valueT]) LoadAndDelete(key string) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint.go b/gen_uint.go
index e965eb3..e964efb 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -44,6 +44,32 @@ func (n *uintnode[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uintnode[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uintnode[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uintnode[valueT]) loadNext(i int) *uintnode[valueT] {
 	return (*uintnode[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *UintMap[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool) {
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32.go b/gen_uint32.go
index 3813aef..c317ae6 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -44,6 +44,32 @@ func (n *uint32node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uint32node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uint32node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint32node[valueT]) loadNext(i int) *uint32node[valueT] {
 	return (*uint32node[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Uint32Map[valueT]) LoadAndDelete(key uint32) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index b7365de..5eab90a 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -44,6 +44,32 @@ func (n *uint32nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uint32nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uint32nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint32nodeDesc[valueT]) loadNext(i int) *uint32nodeDesc[valueT] {
 	return (*uint32nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Uint32MapDesc[valueT]) LoadAndDelete(key uint32) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64.go b/gen_uint64.go
index e387136..df5d6a1 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -44,6 +44,32 @@ func (n *uint64node[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uint64node[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uint64node[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint64node[valueT]) loadNext(i int) *uint64node[valueT] {
 	return (*uint64node[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Uint64Map[valueT]) LoadAndDelete(key uint64) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 939e8c5..895754c 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -44,6 +44,32 @@ func (n *uint64nodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uint64nodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uint64nodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uint64nodeDesc[valueT]) loadNext(i int) *uint64nodeDesc[valueT] {
 	return (*uint64nodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *Uint64MapDesc[valueT]) LoadAndDelete(key uint64) (value valueT, loaded
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 3d74eea..07acf0c 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -44,6 +44,32 @@ func (n *uintnodeDesc[valueT]) loadVal() valueT {
 	return *(*valueT)(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *uintnodeDesc[valueT]) replaceVal(value valueT) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *uintnodeDesc[valueT]) takeVal() valueT {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*valueT)(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *uintnodeDesc[valueT]) loadNext(i int) *uintnodeDesc[valueT] {
 	return (*uintnodeDesc[valueT])(n.next.load(i))
 }
@@ -121,8 +147,7 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -267,7 +292,7 @@ func (s *UintMapDesc[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
diff --git a/skipmap.tpl b/skipmap.tpl
index a48cb05..2eff1d5 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -43,6 +43,32 @@ func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadVal() {
 	return *(*{{.ValueType}})(atomic.LoadPointer(&n.value))
 }
 
+// replaceVal replaces the value of a node that is present in the skip list,
+// it returns false if the node is not fully linked or is marked.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) replaceVal(value {{.ValueType}}) bool {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		if !n.flags.MGet(fullyLinked|marked, fullyLinked) {
+			return false
+		}
+		// Fails if the node has been marked and its value taken in the meantime, see takeVal.
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return true
+		}
+	}
+}
+
+// takeVal returns the last value of a marked node. No replaceVal succeeds after that.
+func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) takeVal() {{.ValueType}} {
+	for {
+		old := atomic.LoadPointer(&n.value)
+		value := *(*{{.ValueType}})(old)
+		if atomic.CompareAndSwapPointer(&n.value, old, unsafe.Pointer(&value)) {
+			return value
+		}
+	}
+}
+
 func (n *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}) loadNext(i int) *{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}} {
 	return (*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}})(n.next.load(i))
 }
@@ -120,8 +146,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 	for {
 		nodeFound := s.findNode(key, &preds, &succs)
 		if nodeFound != nil { // indicating the key is already in the skip-list
-			if nodeFound.flags.MGet(fullyLinked|marked, fullyLinked) {
-				nodeFound.storeVal(value)
+			if nodeFound.replaceVal(value) {
 				return
 			}
 			// If the node is not fully linked, some other goroutine is still adding it and readers can't see it yet.
@@ -266,7 +291,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadAndDelete(k
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
 			atomic.AddInt64(&s.length, -1)
-			return nodeToDelete.loadVal(), true
+			return nodeToDelete.takeVal(), true
 		}
 		return
 	}
-- 
2.43.0


From dee4cb9ae609599d47848a121beaf24316d33c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 3/6] fix: Len must not become negative while a new key is
 being deleted

The insertion was counted only after the node had been published, so a
deletion of the new key could be counted first.
---
 gen_func.go        | 6 +++---
 gen_int.go         | 6 +++---
 gen_int32.go       | 6 +++---
 gen_int32desc.go   | 6 +++---
 gen_int64.go       | 6 +++---
 gen_int64desc.go   | 6 +++---
 gen_intdesc.go     | 6 +++---
 gen_ordered.go     | 6 +++---
 gen_ordereddesc.go | 6 +++---
 gen_string.go      | 6 +++---
 gen_stringdesc.go  | 6 +++---
 gen_uint.go        | 6 +++---
 gen_uint32.go      | 6 +++---
 gen_uint32desc.go  | 6 +++---
 gen_uint64.go      | 6 +++---
 gen_uint64desc.go  | 6 +++---
 gen_uintdesc.go    | 6 +++---
 skipmap.tpl        | 6 +++---
 18 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index d431067..7c88dce 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -188,9 +188,9 @@ func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -362,9 +362,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -431,9 +431,9 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index e1060e7..2aa8d3f 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -186,9 +186,9 @@ func (s *IntMap[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *IntMap[valueT]) LoadOrStore(key int, value valueT) (actual valueT, load
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index 260fcf1..55ef794 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -186,9 +186,9 @@ func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Int32Map[valueT]) LoadOrStore(key int32, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 640fb00..64e66f3 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -186,9 +186,9 @@ func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStore(key int32, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index ff64c47..4e7777a 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -186,9 +186,9 @@ func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Int64Map[valueT]) LoadOrStore(key int64, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index ac77008..c036f4e 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -186,9 +186,9 @@ func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStore(key int64, value valueT) (actual valu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 85350ac..e0f839c 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -186,9 +186,9 @@ func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *IntMapDesc[valueT]) LoadOrStore(key int, value valueT) (actual valueT,
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 4a3d4ec..e3d54e1 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -186,9 +186,9 @@ func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actual v
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index ab4cb76..7607d10 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -186,9 +186,9 @@ func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStore(key keyT, value valueT) (actu
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index 034cea1..ba03b8b 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -186,9 +186,9 @@ func (s *StringMap[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *StringMap[valueT]) LoadOrStore(key string, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 2098e3e..9ea90e7 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -186,9 +186,9 @@ func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *StringMapDesc[valueT]) LoadOrStore(key string, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index e964efb..3398749 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -186,9 +186,9 @@ func (s *UintMap[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *UintMap[valueT]) LoadOrStore(key uint, value valueT) (actual valueT, lo
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index c317ae6..0f10b65 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -186,9 +186,9 @@ func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Uint32Map[valueT]) LoadOrStore(key uint32, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index 5eab90a..b80262c 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -186,9 +186,9 @@ func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStore(key uint32, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index df5d6a1..0f8343b 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -186,9 +186,9 @@ func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Uint64Map[valueT]) LoadOrStore(key uint64, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index 895754c..bbb251d 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -186,9 +186,9 @@ func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStore(key uint64, value valueT) (actual va
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 07acf0c..f81ec16 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -186,9 +186,9 @@ func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -360,9 +360,9 @@ func (s *UintMapDesc[valueT]) LoadOrStore(key uint, value valueT) (actual valueT
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -429,9 +429,9 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
diff --git a/skipmap.tpl b/skipmap.tpl
index 2eff1d5..c2d647f 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -185,9 +185,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.Ke
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return
 	}
 }
@@ -359,9 +359,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStore(key
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
@@ -428,9 +428,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1) // before the node can be deleted, the length never gets negative
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return value, false
 	}
 }
-- 
2.43.0


From 4d34d18b8a167dc9275327cf17cafa5d58361c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 4/6] fix: a panic in the function given to LoadOrStoreLazy
 must not leave locks held

Nodes locked for the insertion stayed locked if the function panicked or
ended its goroutine, so later calls next to that key blocked for ever.
---
 gen_func.go        | 15 ++++++++++++++-
 gen_int.go         | 15 ++++++++++++++-
 gen_int32.go       | 15 ++++++++++++++-
 gen_int32desc.go   | 15 ++++++++++++++-
 gen_int64.go       | 15 ++++++++++++++-
 gen_int64desc.go   | 15 ++++++++++++++-
 gen_intdesc.go     | 15 ++++++++++++++-
 gen_ordered.go     | 15 ++++++++++++++-
 gen_ordereddesc.go | 15 ++++++++++++++-
 gen_string.go      | 15 ++++++++++++++-
 gen_stringdesc.go  | 15 ++++++++++++++-
 gen_uint.go        | 15 ++++++++++++++-
 gen_uint32.go      | 15 ++++++++++++++-
 gen_uint32desc.go  | 15 ++++++++++++++-
 gen_uint64.go      | 15 ++++++++++++++-
 gen_uint64desc.go  | 15 ++++++++++++++-
 gen_uintdesc.go    | 15 ++++++++++++++-
 skipmap.tpl        | 15 ++++++++++++++-
 18 files changed, 252 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 7c88dce..c95fa2a 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -142,6 +142,19 @@ func unlockfunc[keyT any, valueT any](preds [maxLevel]*funcnode[keyT, valueT], h
 	}
 }
 
+// callfunc calls f while preds are locked, and unlocks them if f panics.
+func callfunc[keyT any, valueT any](preds *[maxLevel]*funcnode[keyT, valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockfunc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *FuncMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -425,7 +438,7 @@ func (s *FuncMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (actu
 			unlockfunc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callfunc(&preds, highestLocked, f)
 		nn := newFuncNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int.go b/gen_int.go
index 2aa8d3f..1d1693c 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -140,6 +140,19 @@ func unlockint[valueT any](preds [maxLevel]*intnode[valueT], highestLevel int) {
 	}
 }
 
+// callint calls f while preds are locked, and unlocks them if f panics.
+func callint[valueT any](preds *[maxLevel]*intnode[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMap[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *IntMap[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual value
 			unlockint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callint(&preds, highestLocked, f)
 		nn := newIntNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32.go b/gen_int32.go
index 55ef794..55cf30d 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -140,6 +140,19 @@ func unlockint32[valueT any](preds [maxLevel]*int32node[valueT], highestLevel in
 	}
 }
 
+// callint32 calls f while preds are locked, and unlocks them if f panics.
+func callint32[valueT any](preds *[maxLevel]*int32node[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32Map[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Int32Map[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actual v
 			unlockint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callint32(&preds, highestLocked, f)
 		nn := newInt32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 64e66f3..103ee74 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -140,6 +140,19 @@ func unlockint32Desc[valueT any](preds [maxLevel]*int32nodeDesc[valueT], highest
 	}
 }
 
+// callint32Desc calls f while preds are locked, and unlocks them if f panics.
+func callint32Desc[valueT any](preds *[maxLevel]*int32nodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint32Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int32MapDesc[valueT]) Store(key int32, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Int32MapDesc[valueT]) LoadOrStoreLazy(key int32, f func() valueT) (actu
 			unlockint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callint32Desc(&preds, highestLocked, f)
 		nn := newInt32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64.go b/gen_int64.go
index 4e7777a..4928a32 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -140,6 +140,19 @@ func unlockint64[valueT any](preds [maxLevel]*int64node[valueT], highestLevel in
 	}
 }
 
+// callint64 calls f while preds are locked, and unlocks them if f panics.
+func callint64[valueT any](preds *[maxLevel]*int64node[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64Map[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Int64Map[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actual v
 			unlockint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callint64(&preds, highestLocked, f)
 		nn := newInt64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_int64desc.go b/gen_int64desc.go
index c036f4e..97b4539 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -140,6 +140,19 @@ func unlockint64Desc[valueT any](preds [maxLevel]*int64nodeDesc[valueT], highest
 	}
 }
 
+// callint64Desc calls f while preds are locked, and unlocks them if f panics.
+func callint64Desc[valueT any](preds *[maxLevel]*int64nodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockint64Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Int64MapDesc[valueT]) Store(key int64, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Int64MapDesc[valueT]) LoadOrStoreLazy(key int64, f func() valueT) (actu
 			unlockint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callint64Desc(&preds, highestLocked, f)
 		nn := newInt64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_intdesc.go b/gen_intdesc.go
index e0f839c..c18f0a3 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -140,6 +140,19 @@ func unlockintDesc[valueT any](preds [maxLevel]*intnodeDesc[valueT], highestLeve
 	}
 }
 
+// callintDesc calls f while preds are locked, and unlocks them if f panics.
+func callintDesc[valueT any](preds *[maxLevel]*intnodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockintDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *IntMapDesc[valueT]) Store(key int, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *IntMapDesc[valueT]) LoadOrStoreLazy(key int, f func() valueT) (actual v
 			unlockintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callintDesc(&preds, highestLocked, f)
 		nn := newIntNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordered.go b/gen_ordered.go
index e3d54e1..41270c9 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -140,6 +140,19 @@ func unlockordered[keyT ordered, valueT any](preds [maxLevel]*orderednode[keyT,
 	}
 }
 
+// callordered calls f while preds are locked, and unlocks them if f panics.
+func callordered[keyT ordered, valueT any](preds *[maxLevel]*orderednode[keyT, valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockordered(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMap[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *OrderedMap[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT) (a
 			unlockordered(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callordered(&preds, highestLocked, f)
 		nn := newOrderedNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7607d10..13fc660 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -140,6 +140,19 @@ func unlockorderedDesc[keyT ordered, valueT any](preds [maxLevel]*orderednodeDes
 	}
 }
 
+// callorderedDesc calls f while preds are locked, and unlocks them if f panics.
+func callorderedDesc[keyT ordered, valueT any](preds *[maxLevel]*orderednodeDesc[keyT, valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockorderedDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *OrderedMapDesc[keyT, valueT]) Store(key keyT, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadOrStoreLazy(key keyT, f func() valueT
 			unlockorderedDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callorderedDesc(&preds, highestLocked, f)
 		nn := newOrderedNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_string.go b/gen_string.go
index ba03b8b..5b557b6 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -140,6 +140,19 @@ func unlockstring[valueT any](preds [maxLevel]*stringnode[valueT], highestLevel
 	}
 }
 
+// callstring calls f while preds are locked, and unlocks them if f panics.
+func callstring[valueT any](preds *[maxLevel]*stringnode[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstring(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMap[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *StringMap[valueT]) LoadOrStoreLazy(key string, f func() valueT) (actual
 			unlockstring(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callstring(&preds, highestLocked, f)
 		nn := newStringNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 9ea90e7..ea58cb0 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -140,6 +140,19 @@ func unlockstringDesc[valueT any](preds [maxLevel]*stringnodeDesc[valueT], highe
 	}
 }
 
+// callstringDesc calls f while preds are locked, and unlocks them if f panics.
+func callstringDesc[valueT any](preds *[maxLevel]*stringnodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockstringDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *StringMapDesc[valueT]) Store(key string, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *StringMapDesc[valueT]) LoadOrStoreLazy(key string, f func() valueT) (ac
 			unlockstringDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := callstringDesc(&preds, highestLocked, f)
 		nn := newStringNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint.go b/gen_uint.go
index 3398749..35cdfaf 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -140,6 +140,19 @@ func unlockuint[valueT any](preds [maxLevel]*uintnode[valueT], highestLevel int)
 	}
 }
 
+// calluint calls f while preds are locked, and unlocks them if f panics.
+func calluint[valueT any](preds *[maxLevel]*uintnode[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMap[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *UintMap[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual val
 			unlockuint(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluint(&preds, highestLocked, f)
 		nn := newUintNode(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32.go b/gen_uint32.go
index 0f10b65..7004695 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -140,6 +140,19 @@ func unlockuint32[valueT any](preds [maxLevel]*uint32node[valueT], highestLevel
 	}
 }
 
+// calluint32 calls f while preds are locked, and unlocks them if f panics.
+func calluint32[valueT any](preds *[maxLevel]*uint32node[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32Map[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Uint32Map[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (actual
 			unlockuint32(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluint32(&preds, highestLocked, f)
 		nn := newUint32Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index b80262c..b705341 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -140,6 +140,19 @@ func unlockuint32Desc[valueT any](preds [maxLevel]*uint32nodeDesc[valueT], highe
 	}
 }
 
+// calluint32Desc calls f while preds are locked, and unlocks them if f panics.
+func calluint32Desc[valueT any](preds *[maxLevel]*uint32nodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint32Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint32MapDesc[valueT]) Store(key uint32, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Uint32MapDesc[valueT]) LoadOrStoreLazy(key uint32, f func() valueT) (ac
 			unlockuint32Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluint32Desc(&preds, highestLocked, f)
 		nn := newUint32NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64.go b/gen_uint64.go
index 0f8343b..9b4edbd 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -140,6 +140,19 @@ func unlockuint64[valueT any](preds [maxLevel]*uint64node[valueT], highestLevel
 	}
 }
 
+// calluint64 calls f while preds are locked, and unlocks them if f panics.
+func calluint64[valueT any](preds *[maxLevel]*uint64node[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64Map[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Uint64Map[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (actual
 			unlockuint64(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluint64(&preds, highestLocked, f)
 		nn := newUint64Node(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index bbb251d..fe3d802 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -140,6 +140,19 @@ func unlockuint64Desc[valueT any](preds [maxLevel]*uint64nodeDesc[valueT], highe
 	}
 }
 
+// calluint64Desc calls f while preds are locked, and unlocks them if f panics.
+func calluint64Desc[valueT any](preds *[maxLevel]*uint64nodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuint64Desc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *Uint64MapDesc[valueT]) Store(key uint64, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *Uint64MapDesc[valueT]) LoadOrStoreLazy(key uint64, f func() valueT) (ac
 			unlockuint64Desc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluint64Desc(&preds, highestLocked, f)
 		nn := newUint64NodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index f81ec16..f0e0b20 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -140,6 +140,19 @@ func unlockuintDesc[valueT any](preds [maxLevel]*uintnodeDesc[valueT], highestLe
 	}
 }
 
+// calluintDesc calls f while preds are locked, and unlocks them if f panics.
+func calluintDesc[valueT any](preds *[maxLevel]*uintnodeDesc[valueT], highestLevel int, f func() valueT) valueT {
+	returned := false
+	defer func() {
+		if !returned {
+			unlockuintDesc(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *UintMapDesc[valueT]) Store(key uint, value valueT) {
 	level := s.randomlevel()
@@ -423,7 +436,7 @@ func (s *UintMapDesc[valueT]) LoadOrStoreLazy(key uint, f func() valueT) (actual
 			unlockuintDesc(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := calluintDesc(&preds, highestLocked, f)
 		nn := newUintNodeDesc(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
diff --git a/skipmap.tpl b/skipmap.tpl
index c2d647f..7f0b867 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -139,6 +139,19 @@ func unlock{{.Name}}{{.TypeParam}}(preds [maxLevel]*{{.StructPrefixLow}}node{{.S
 	}
 }
 
+// call{{.Name}} calls f while preds are locked, and unlocks them if f panics.
+func call{{.Name}}{{.TypeParam}}(preds *[maxLevel]*{{.StructPrefixLow}}node{{.StructSuffix}}{{.TypeArgument}}, highestLevel int, f func() {{.ValueType}}) {{.ValueType}} {
+	returned := false
+	defer func() {
+		if !returned {
+			unlock{{.Name}}(*preds, highestLevel)
+		}
+	}()
+	value := f()
+	returned = true
+	return value
+}
+
 // Store sets the value for a key.
 func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Store(key {{.KeyType}}, value {{.ValueType}}) {
 	level := s.randomlevel()
@@ -422,7 +435,7 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadOrStoreLazy
 			unlock{{.Name}}(preds, highestLocked)
 			continue
 		}
-		value := f()
+		value := call{{.Name}}(&preds, highestLocked, f)
 		nn := new{{.StructPrefix}}Node{{.StructSuffix}}(key, value, level)
 		for layer := 0; layer < level; layer++ {
 			nn.storeNext(layer, succs[layer])
-- 
2.43.0


From 91a56a0caa25810f4e3fa8a038aa33dfdd0afb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 5/6] fix: New and NewDesc must handle NaN keys

A NaN key never compared equal to itself and broke the order of the other
floating-point keys; order it first and equal to itself, as NewFloat64 does.
---
 gen.go             |  8 ++++----
 gen_ordered.go     | 12 ++++++------
 gen_ordereddesc.go | 12 ++++++------
 util.go            | 20 ++++++++++++++++++++
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/gen.go b/gen.go
index 2c57612..215c2f9 100644
--- a/gen.go
+++ b/gen.go
@@ -71,10 +71,10 @@ func main() {
 		StructSuffix:    "",
 		Funcs: template.FuncMap{
 			"Less": func(i, j string) string {
-				return fmt.Sprintf("(%s < %s)", i, j)
+				return fmt.Sprintf("lessOrdered(%s, %s)", i, j)
 			},
 			"Equal": func(i, j string) string {
-				return fmt.Sprintf("%s == %s", i, j)
+				return fmt.Sprintf("equalOrdered(%s, %s)", i, j)
 			},
 		},
 	}
@@ -84,10 +84,10 @@ func main() {
 	base.Path = "gen_ordereddesc.go"
 	base.Funcs = template.FuncMap{
 		"Less": func(i, j string) string {
-			return fmt.Sprintf("(%s > %s)", i, j)
+			return fmt.Sprintf("greaterOrdered(%s, %s)", i, j)
 		},
 		"Equal": func(i, j string) string {
-			return fmt.Sprintf("%s == %s", i, j)
+			return fmt.Sprintf("equalOrdered(%s, %s)", i, j)
 		},
 	}
 	generate(base)
diff --git a/gen_ordered.go b/gen_ordered.go
index 41270c9..5cb8aaf 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -93,7 +93,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && lessOrdered(succ.key, key) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -101,7 +101,7 @@ func (s *OrderedMap[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orderedn
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && equalOrdered(succ.key, key) {
 			return succ
 		}
 	}
@@ -115,7 +115,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key < key) {
+		for succ != nil && lessOrdered(succ.key, key) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -123,7 +123,7 @@ func (s *OrderedMap[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel]*or
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && equalOrdered(succ.key, key) {
 			lFound = i
 		}
 	}
@@ -230,13 +230,13 @@ func (s *OrderedMap[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key < key) {
+		for nex != nil && lessOrdered(nex.key, key) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && equalOrdered(nex.key, key) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 13fc660..d71151e 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -93,7 +93,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && greaterOrdered(succ.key, key) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -101,7 +101,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNode(key keyT, preds *[maxLevel]*orde
 		succs[i] = succ
 
 		// Check if the key already in the skipmap.
-		if succ != nil && succ.key == key {
+		if succ != nil && equalOrdered(succ.key, key) {
 			return succ
 		}
 	}
@@ -115,7 +115,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 	lFound, x := -1, s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		succ := x.atomicLoadNext(i)
-		for succ != nil && (succ.key > key) {
+		for succ != nil && greaterOrdered(succ.key, key) {
 			x = succ
 			succ = x.atomicLoadNext(i)
 		}
@@ -123,7 +123,7 @@ func (s *OrderedMapDesc[keyT, valueT]) findNodeDelete(key keyT, preds *[maxLevel
 		succs[i] = succ
 
 		// Check if the key already in the skip list.
-		if lFound == -1 && succ != nil && succ.key == key {
+		if lFound == -1 && succ != nil && equalOrdered(succ.key, key) {
 			lFound = i
 		}
 	}
@@ -230,13 +230,13 @@ func (s *OrderedMapDesc[keyT, valueT]) Load(key keyT) (value valueT, ok bool) {
 	x := s.header
 	for i := int(atomic.LoadUint64(&s.highestLevel)) - 1; i >= 0; i-- {
 		nex := x.atomicLoadNext(i)
-		for nex != nil && (nex.key > key) {
+		for nex != nil && greaterOrdered(nex.key, key) {
 			x = nex
 			nex = x.atomicLoadNext(i)
 		}
 
 		// Check if the key already in the skip list.
-		if nex != nil && nex.key == key {
+		if nex != nil && equalOrdered(nex.key, key) {
 			if nex.flags.MGet(fullyLinked|marked, fullyLinked) {
 				return nex.loadVal(), true
 			}
diff --git a/util.go b/util.go
index f6ce1a4..b45ba8a 100644
--- a/util.go
+++ b/util.go
@@ -29,3 +29,23 @@ type ordered interface {
 		~float32 | ~float64 | // float
 		~string
 }
+
+// isNaN reports whether x is a floating-point NaN.
+func isNaN[T ordered](x T) bool {
+	return x != x
+}
+
+// lessOrdered is a < b, with NaN before all other values.
+func lessOrdered[T ordered](a, b T) bool {
+	return a < b || (isNaN(a) && !isNaN(b))
+}
+
+// greaterOrdered is a > b, with NaN before all other values.
+func greaterOrdered[T ordered](a, b T) bool {
+	return a > b || (isNaN(a) && !isNaN(b))
+}
+
+// equalOrdered is a == b, with NaN equal to NaN.
+func equalOrdered[T ordered](a, b T) bool {
+	return a == b || (isNaN(a) && isNaN(b))
+}
-- 
2.43.0


From 75a55e616b1141455df0843ca8b8b636bb8264c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 6/6] fix: Len must not count a key twice while it is deleted
 and added again

The deletion was counted only after the node had been unlinked and the
locks released, so another goroutine's insertion of the same key could
be counted first.
---
 gen_func.go        | 4 ++--
 gen_int.go         | 4 ++--
 gen_int32.go       | 4 ++--
 gen_int32desc.go   | 4 ++--
 gen_int64.go       | 4 ++--
 gen_int64desc.go   | 4 ++--
 gen_intdesc.go     | 4 ++--
 gen_ordered.go     | 4 ++--
 gen_ordereddesc.go | 4 ++--
 gen_string.go      | 4 ++--
 gen_stringdesc.go  | 4 ++--
 gen_uint.go        | 4 ++--
 gen_uint32.go      | 4 ++--
 gen_uint32desc.go  | 4 ++--
 gen_uint64.go      | 4 ++--
 gen_uint64desc.go  | 4 ++--
 gen_uintdesc.go    | 4 ++--
 skipmap.tpl        | 4 ++--
 18 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index c95fa2a..65b375e 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -304,9 +304,9 @@ func (s *FuncMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded bo
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -505,9 +505,9 @@ func (s *FuncMap[keyT, valueT]) Delete(key keyT) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockfunc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int.go b/gen_int.go
index 1d1693c..3350c6e 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -302,9 +302,9 @@ func (s *IntMap[valueT]) LoadAndDelete(key int) (value valueT, loaded bool) {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *IntMap[valueT]) Delete(key int) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int32.go b/gen_int32.go
index 55cf30d..33457fe 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -302,9 +302,9 @@ func (s *Int32Map[valueT]) LoadAndDelete(key int32) (value valueT, loaded bool)
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Int32Map[valueT]) Delete(key int32) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int32desc.go b/gen_int32desc.go
index 103ee74..b1e7b13 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -302,9 +302,9 @@ func (s *Int32MapDesc[valueT]) LoadAndDelete(key int32) (value valueT, loaded bo
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Int32MapDesc[valueT]) Delete(key int32) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int64.go b/gen_int64.go
index 4928a32..f0530d8 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -302,9 +302,9 @@ func (s *Int64Map[valueT]) LoadAndDelete(key int64) (value valueT, loaded bool)
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Int64Map[valueT]) Delete(key int64) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 97b4539..8143793 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -302,9 +302,9 @@ func (s *Int64MapDesc[valueT]) LoadAndDelete(key int64) (value valueT, loaded bo
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Int64MapDesc[valueT]) Delete(key int64) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_intdesc.go b/gen_intdesc.go
index c18f0a3..a579cf0 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -302,9 +302,9 @@ func (s *IntMapDesc[valueT]) LoadAndDelete(key int) (value valueT, loaded bool)
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *IntMapDesc[valueT]) Delete(key int) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_ordered.go b/gen_ordered.go
index 5cb8aaf..03457b3 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -302,9 +302,9 @@ func (s *OrderedMap[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, loaded
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *OrderedMap[keyT, valueT]) Delete(key keyT) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockordered(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index d71151e..016ef90 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -302,9 +302,9 @@ func (s *OrderedMapDesc[keyT, valueT]) LoadAndDelete(key keyT) (value valueT, lo
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *OrderedMapDesc[keyT, valueT]) Delete(key keyT) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockorderedDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_string.go b/gen_string.go
index 5b557b6..26557f8 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -302,9 +302,9 @@ func (s *StringMap[valueT]) LoadAndDelete(key string) (value valueT, loaded bool
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *StringMap[valueT]) Delete(key string) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockstring(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index ea58cb0..c00702c 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -302,9 +302,9 @@ func (s *StringMapDesc[valueT]) LoadAndDelete(key string) (value valueT, loaded
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *StringMapDesc[valueT]) Delete(key string) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockstringDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint.go b/gen_uint.go
index 35cdfaf..2c61c11 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -302,9 +302,9 @@ func (s *UintMap[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool) {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *UintMap[valueT]) Delete(key uint) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint32.go b/gen_uint32.go
index 7004695..3dfc6dd 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -302,9 +302,9 @@ func (s *Uint32Map[valueT]) LoadAndDelete(key uint32) (value valueT, loaded bool
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Uint32Map[valueT]) Delete(key uint32) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint32(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index b705341..b45689f 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -302,9 +302,9 @@ func (s *Uint32MapDesc[valueT]) LoadAndDelete(key uint32) (value valueT, loaded
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Uint32MapDesc[valueT]) Delete(key uint32) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint32Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint64.go b/gen_uint64.go
index 9b4edbd..dc37d64 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -302,9 +302,9 @@ func (s *Uint64Map[valueT]) LoadAndDelete(key uint64) (value valueT, loaded bool
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Uint64Map[valueT]) Delete(key uint64) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint64(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index fe3d802..8fc4cd9 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -302,9 +302,9 @@ func (s *Uint64MapDesc[valueT]) LoadAndDelete(key uint64) (value valueT, loaded
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *Uint64MapDesc[valueT]) Delete(key uint64) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuint64Desc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index f0e0b20..c00fed9 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -302,9 +302,9 @@ func (s *UintMapDesc[valueT]) LoadAndDelete(key uint) (value valueT, loaded bool
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -503,9 +503,9 @@ func (s *UintMapDesc[valueT]) Delete(key uint) bool {
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlockuintDesc(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
diff --git a/skipmap.tpl b/skipmap.tpl
index 7f0b867..f560bee 100644
--- a/skipmap.tpl
+++ b/skipmap.tpl
@@ -301,9 +301,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) LoadAndDelete(k
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return nodeToDelete.takeVal(), true
 		}
 		return
@@ -502,9 +502,9 @@ func (s *{{.StructPrefix}}Map{{.StructSuffix}}{{.TypeArgument}}) Delete(key {{.K
 				// So we don't need `nodeToDelete.loadNext`
 				preds[i].atomicStoreNext(i, nodeToDelete.loadNext(i))
 			}
+			atomic.AddInt64(&s.length, -1) // before the key can be added again, the key never counts twice
 			nodeToDelete.mu.Unlock()
 			unlock{{.Name}}(preds, highestLocked)
-			atomic.AddInt64(&s.length, -1)
 			return true
 		}
 		return false
-- 
2.43.0

