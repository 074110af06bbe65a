From 415118d5326d91940343d1c400aa0b11420fe656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 01/57] fix: range iterators start at the first key not below
 start

---
 src/collection/avl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..d200fd8 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -448,11 +448,16 @@ func (i *AVLIterator) advance() {
 
 	if i.start != nil {
 
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
+		for comp := i.start.Compare(i.currNode.key); comp > 0; {
 
 			if i.currNode.link[1] != nil {
 
 				i.currNode = i.currNode.link[1]
+				i.currPos = 0
+				for i.currNode.link[0] != nil {
+					i.paths = append(i.paths, i.currNode)
+					i.currNode = i.currNode.link[0]
+				}
 				comp = i.start.Compare(i.currNode.key)
 
 			} else {
-- 
2.43.0


From b02bef11143705a2e28146f8ce3f1eddc9772fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 02/57] fix: exhausted map and set iterators return nil instead
 of panicking

---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 635d9a72f4c602fc50e13e00eba372ae35507994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 03/57] fix: comparing a slice with its own proper prefix no
 longer reads past the prefix

---
 src/collection/util.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From 08103605fd00bfc4634c2b4fb3ad9133e220a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 04/57] fix: two wrapped nil slices compare as equal

---
 src/collection/comparable.go | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..de21aa1 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -88,13 +88,11 @@ func (s *ComparableSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -145,13 +143,11 @@ func (s *ComparableByteSlice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableByteSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -202,13 +198,11 @@ func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt8Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -259,13 +253,11 @@ func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -316,13 +308,11 @@ func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -373,13 +363,11 @@ func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -430,13 +418,11 @@ func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -487,13 +473,11 @@ func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt64Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -545,13 +529,11 @@ func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
 	if IsNil(s.slice) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
-		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if c is not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint64Slice [%v]", reflect.TypeOf(c)))
 	}
-- 
2.43.0


From 9891c6ce1b99ee676ce8efa6cb5032cd4edccaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 05/57] fix: ComparableSlice.Equal tells a nil slice from an
 empty one, as Compare does

---
 src/collection/comparable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index de21aa1..44b8d61 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -65,6 +65,11 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	// convert to ComparableSlice
 	th := t.(*ComparableSlice)
 
+	// a nil slice is not equal to an empty slice, same as in Compare()
+	if (s.slice == nil) != (th.slice == nil) {
+		return false
+	}
+
 	if len(s.slice) != len(th.slice) {
 		return false
 	}
-- 
2.43.0


From 196ece1aca735971ace3d1944cf48c30fa160e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 06/57] fix: hashing a numeric slice no longer reslices past
 its capacity

---
 src/collection/hashable.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..945634b 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -204,7 +204,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +253,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +302,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +351,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +400,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +449,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 7a60b94c2b5527537a1709a3a96366610396b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 07/57] fix: HashableSlice.HashUint32 accepts hashable elements
 instead of panicking

---
 src/collection/hashable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 945634b..373b720 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -102,7 +102,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
+			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((*IHashable)(nil)).Elem()) {
 				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
 			}
 			h ^= obj.(IHashable).HashUint32(f)
-- 
2.43.0


From 21ac3d34db84e1ef05f393c010f6a0735242b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 08/57] fix: IsNil no longer panics on arrays

---
 src/collection/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index 42695bc..ab00e11 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -30,7 +30,7 @@ func IsNil(i interface{}) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From cef60b7e435121470ed631bdc2d90eb652a3bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 09/57] fix: varint decoding no longer treats the number as a
 length, nor overflows on huge counts

---
 src/util/key_util.go    | 4 ++++
 src/util/misc_util.go   | 6 +-----
 src/util/scheme_util.go | 4 ++++
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..47e8d45 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,6 +227,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	if subKeySize > uint64(len(k.buf)-pos) {
+		// each subKey takes at least 1 byte
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..a4ab093 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -122,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if uint64(len(buf)-bufN) < bufLength {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..05d60a3 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -182,6 +182,10 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		if bucketSize > uint64(len(s.buf)-pos) {
+			// each bucket takes at least 1 byte
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
-- 
2.43.0


From e6f083bc0bb547048b772e1500d4719f2cfdfccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 10/57] fix: a decoded key holds exactly its own bytes, and
 truncated keys are rejected

---
 src/util/key_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 47e8d45..98bf5f9 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
@@ -236,10 +236,14 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedKey::Decode - subKey [%d] error [%v]", idx, err)
+		} else if length == 0 {
+			return 0, fmt.Errorf("MappedKey::Decode - missing subKey [%d]", idx)
 		}
 		pos += length
 	}
 
+	// set buf length to exact length
+	k.buf = k.buf[:pos]
 	k.decoded = true
 
 	return pos, nil
-- 
2.43.0


From be05fdf6ab1e8e7dd71225b0176e485667514420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 11/57] fix: comparing a key with one of its own prefixes no
 longer panics

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 98bf5f9..14d8d89 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -304,7 +304,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -510,7 +510,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From 250c2840513a665ce894abac55f0c552d0256cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 12/57] fix: adding a sub key invalidates the encoded buf

---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 14d8d89..b29a96f 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -557,6 +557,7 @@ func (k *Key) Add(subKey []byte) *Key {
 	}
 
 	k.keys = append(k.keys, subKey)
+	k.encoded = false
 	k.estBufSize += 1 + len(subKey)
 	return k
 }
-- 
2.43.0


From b7c14f92db61c9e7ee89462fa40844768a6c6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 13/57] fix: the hash of a key depends on the order of its sub
 keys, so that permuted keys can be told apart

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index b29a96f..7486a65 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -326,7 +326,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*31 + f(key)
 	}
 	return hashValue
 }
@@ -470,7 +470,7 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	hashValue := uint32(0)
 	for _, key := range k.keys {
-		hashValue ^= f(key)
+		hashValue = hashValue*31 + f(key)
 	}
 	return hashValue
 }
-- 
2.43.0


From 492713ac1b59d259e0802f4cd0912774582c0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 14/57] fix: copies of a key do not share its sub keys

---
 src/util/key_util.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 7486a65..1f8a917 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -250,7 +250,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	// make a deep copy of the buf
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
@@ -263,7 +266,9 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		// make a deep copy of the sub key
+		result.keys = append(result.keys, append([]byte{}, key...))
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result, nil
@@ -450,7 +455,9 @@ func (k *Key) Copy() IEncodable {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		// make a deep copy of the sub key
+		result.keys = append(result.keys, append([]byte{}, key...))
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result
@@ -461,7 +468,9 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 	result := NewKey()
 
 	for _, key := range k.Key() {
-		result.Add(key)
+		// make a deep copy of the sub key
+		result.keys = append(result.keys, append([]byte{}, key...))
+		result.estBufSize += 1 + len(key)
 	}
 
 	return result, nil
-- 
2.43.0


From e030e567f75b481818a2bb165598f5fdd1274d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:29 +0000
Subject: [PATCH 15/57] fix: a nil primitive is encoded as a nil value instead
 of no bytes at all

---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From da2df8c4060d66e5aa951d03da37bba19c1bc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 16/57] fix: looking up a malformed element keeps failing,
 instead of returning a nil element on the second attempt

---
 src/util/value_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..12502eb 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,17 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			value, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = value
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			record, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = record
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From d23e64434885600a368d98ff4f139f524303b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 17/57] fix: records without a key, a value or a scheme can be
 decoded

---
 src/util/record_util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..c453722 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -170,11 +170,15 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
+	} else if hasKey == 0 {
+		r.key = nil
+	} else if length == 0 {
+		return 0, fmt.Errorf("MappedRecord::Decode - invalid buf, no key, %d, %x", len(r.buf), r.buf)
 	} else if len(key.Buf()) > MAX_KEY_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
 	} else {
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length
 	}
 
 	// value
@@ -187,6 +191,8 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
+	} else if hasValue == 0 {
+		r.value = nil
 	} else if len(value.Buf()) > MAX_VALUE_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
 	} else {
@@ -204,6 +210,8 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	}
 	if err != nil {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
+	} else if hasScheme == 0 {
+		r.scheme = nil
 	} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
 		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
 	} else {
-- 
2.43.0


From 73ca53aa6cb3e6c0f2cba33765b41a88013f7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 18/57] fix: a decoded record without a key, a value or a
 scheme can be copied

---
 src/util/record_util.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index c453722..94908f6 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -274,24 +274,29 @@ func (r *MappedRecord) Copy() IEncodable {
 func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 
 	result := NewRecord()
-	var err error
 
-	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+	if r.Key() != nil {
+		key, err := r.Key().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+		}
+		result.key = key.(IKey)
 	}
 
-	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+	if r.Value() != nil {
+		value, err := r.Value().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+		}
+		result.value = value.(IValue)
 	}
 
-	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+	if r.Scheme() != nil {
+		scheme, err := r.Scheme().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+		}
+		result.scheme = scheme.(IValue)
 	}
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
-- 
2.43.0


From 2705e36c20116443e238ed9c8fa120a3342cee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 19/57] fix: records whose value or scheme is too long to be
 decoded are refused when encoding

---
 src/util/record_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 94908f6..4f2d43e 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -441,6 +441,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.value.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
+		} else if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 5
@@ -453,6 +455,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.scheme.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
+		} else if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 4
-- 
2.43.0


From 80c45b8defb11c6deea82b65013d3e7aa37e2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 20/57] fix: scheme components are flagged in the scheme magic,
 and read back only when flagged

---
 src/util/scheme_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 05d60a3..775be98 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -158,7 +158,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +167,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +176,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -330,7 +330,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -340,7 +340,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -350,7 +350,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 8eea3db8acbeb70e7f0b0955c4cf4966c802d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 21/57] fix: truncated schemes are rejected, and a decoded
 scheme holds exactly its own bytes

---
 src/util/scheme_util.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 775be98..e5186ca 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,6 +153,10 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - invalid empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
@@ -162,6 +166,8 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
+		} else if length == 0 {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing domain")
 		}
 		pos += length
 	}
@@ -171,6 +177,8 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
+		} else if length == 0 {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing tablet")
 		}
 		pos += length
 	}
@@ -180,6 +188,8 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
+		} else if length == 0 {
+			return 0, fmt.Errorf("MappedScheme::Decode - missing bucket size")
 		}
 		pos += length
 		if bucketSize > uint64(len(s.buf)-pos) {
@@ -191,11 +201,15 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
 			if err != nil {
 				return 0, fmt.Errorf("MappedScheme::Decode - bucket [%d] error [%v]", idx, err)
+			} else if length == 0 {
+				return 0, fmt.Errorf("MappedScheme::Decode - missing bucket [%d]", idx)
 			}
 			pos += length
 		}
 	}
 
+	// set buf length to exact length
+	s.buf = s.buf[:pos]
 	s.decoded = true
 
 	return pos, nil
-- 
2.43.0


From c01bfd97a710b1f5bfb1a68f27f5bca41a4b6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:16 +0000
Subject: [PATCH 22/57] fix: copies of a scheme do not share its components

---
 src/util/scheme_util.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index e5186ca..c0b97b2 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -223,16 +223,18 @@ func (s *MappedScheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -403,16 +405,18 @@ func (s *Scheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 6701d99d659c559e577c84f9c919dd1c3f62ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:29 +0000
Subject: [PATCH 23/57] fix: raft time is encoded after its magic byte instead
 of over it

---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From ff8480aaf2c5d4a4e93660b1ee796192005e547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:30 +0000
Subject: [PATCH 24/57] fix: a later raft time is never less than an earlier
 one

---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From 9abf3a13e5358d826c4b97d167806521c1d64f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 25/57] fix: parsing an empty consensus id fails instead of
 panicking

---
 src/util/consensus_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..25be850 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -281,7 +281,7 @@ type MappedConsensusID struct {
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
 	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
-		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
+		return nil, fmt.Errorf("NewConsensusID - invalid magic [%x]", buf)
 	}
 
 	if (buf[0] & 0x7) != 0 {
-- 
2.43.0


From b3da1b5649a0c03952f985a313acc7a534620a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:32 +0000
Subject: [PATCH 26/57] fix: signed random ranges stay within their bounds

---
 src/util/rand_util.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..b39b278 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -154,8 +154,8 @@ func RandUint64() uint64 {
 }
 
 func RandInt8Range(min, max int8) int8 {
-	data := RandInt8()
-	result := data%(max-min) + min
+	data := RandUint8()
+	result := int8(data%(uint8(max)-uint8(min))) + min
 	return result
 }
 
@@ -166,8 +166,8 @@ func RandUint8Range(min, max uint8) uint8 {
 }
 
 func RandInt16Range(min, max int16) int16 {
-	data := RandInt16()
-	result := data%(max-min) + min
+	data := RandUint16()
+	result := int16(data%(uint16(max)-uint16(min))) + min
 	return result
 }
 
@@ -178,8 +178,8 @@ func RandUint16Range(min, max uint16) uint16 {
 }
 
 func RandInt32Range(min, max int32) int32 {
-	data := RandInt32()
-	result := data%(max-min) + min
+	data := RandUint32()
+	result := int32(data%(uint32(max)-uint32(min))) + min
 	return result
 }
 
@@ -190,8 +190,8 @@ func RandUint32Range(min, max uint32) uint32 {
 }
 
 func RandInt64Range(min, max int64) int64 {
-	data := RandInt64()
-	result := data%(max-min) + min
+	data := RandUint64()
+	result := int64(data%(uint64(max)-uint64(min))) + min
 	return result
 }
 
-- 
2.43.0


From 022b4af4cdc41526e25a5ab4fdbf205892ccddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 27/57] fix: the hash of an empty key depends on the hash
 function, so that perfect hash builds can place it

---
 src/util/key_util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 1f8a917..240fa9b 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -118,7 +118,7 @@ func (k *EmptyKey) Compare(c collection.IComparable) int {
 }
 
 func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
-	hashValue := uint32(0)
+	hashValue := f([]byte{})
 	return hashValue
 }
 
@@ -329,6 +329,9 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 }
 
 func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // same as EmptyKey
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*31 + f(key)
@@ -477,6 +480,9 @@ func (k *Key) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
+	if len(k.keys) == 0 {
+		return f([]byte{}) // same as EmptyKey
+	}
 	hashValue := uint32(0)
 	for _, key := range k.keys {
 		hashValue = hashValue*31 + f(key)
-- 
2.43.0


From a471e5b5ad6be60f6057c2e372f22b635f4905d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 28/57] fix: looking up a key in an empty perfect hash table
 finds nothing instead of panicking

---
 src/util/mph_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..c2f73a4 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -357,7 +357,10 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
-	if t.verifyKey != nil {
+	if int(n) >= len(t.verifyKey)+len(t.verifyHash) {
+		// no key to verify, e.g. the table is empty
+		return n, false
+	} else if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
 		// verify by bloom filter key
-- 
2.43.0


From 4c3643f79e8df1e5f58399e3ed042aa90263d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 29/57] fix: malformed perfect hash tables are rejected instead
 of panicking or exhausting memory

---
 src/util/mph_util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index c2f73a4..0ba0304 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -91,6 +91,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		return nil, pos, fmt.Errorf("NewMPHTable - missing level 0 mask %d", len(buf))
 	}
 	t.level0Mask = int(binary.BigEndian.Uint32(buf[pos:]))
+	if level0_len == 0 || t.level0Mask != int(level0_len)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - invalid level 0 mask %x, length %d", t.level0Mask, level0_len)
+	}
 	pos += 4
 
 	////////////////////////////////////////
@@ -116,6 +119,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		return nil, pos, fmt.Errorf("NewMPHTable - missing level 1 mask %d", len(buf))
 	}
 	t.level1Mask = int(binary.BigEndian.Uint32(buf[pos:]))
+	if level1_len == 0 || t.level1Mask != int(level1_len)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - invalid level 1 mask %x, length %d", t.level1Mask, level1_len)
+	}
 	pos += 4
 
 	////////////////////////////////////////
@@ -132,6 +138,10 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each verify key takes at least 1 byte
+		if int(verifyKeySize) > len(buf)-pos {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify keys %d", verifyKeySize)
+		}
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
@@ -144,7 +154,7 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 			}
 
 			// verify key data content
-			if len(buf) < pos+verifyKeyN {
+			if verifyKeyN == 0 || len(buf) < pos+verifyKeyN {
 				return nil, pos, fmt.Errorf("NewMPHTable - missing verify key data [%d] %d", i, len(buf))
 			}
 
-- 
2.43.0


From 34b3c462c34bf685cefe88667292476ed792240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:37 +0000
Subject: [PATCH 30/57] fix: generated key pairs can be verified with the
 public key restored from X

---
 src/util/ecdsa_util.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..0175055 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -39,12 +39,17 @@ func AESPad(input []byte) []byte {
 
 func ECDSAGenerateKey() *ecdsa.PrivateKey {
 	curve := elliptic.P256()
-	priv_key, err := ecdsa.GenerateKey(curve, rand.Reader)
-	if err != nil {
-		fmt.Println(err)
-		return nil
-	} else {
-		return priv_key
+	for {
+		priv_key, err := ecdsa.GenerateKey(curve, rand.Reader)
+		if err != nil {
+			fmt.Println(err)
+			return nil
+		}
+		// only X of the public key is ever stored or sent, so
+		// Y must be the one that is going to be calculated from X
+		if priv_key.PublicKey.Y.Cmp(ECDSACalculateY(curve, priv_key.PublicKey.X)) == 0 {
+			return priv_key
+		}
 	}
 }
 
-- 
2.43.0


From 5ddfca9cf46bf36f8bdb332e0f0e741c5552f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 31/57] fix: truncated key files are reported as errors instead
 of panicking

---
 src/util/lc_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..659cffe 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] key data too short", filepath)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -271,6 +275,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] key data too short", filepath)
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
-- 
2.43.0


From 537fd76dbb284b24ffb7d55e53a45184d6a87770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 32/57] fix: a public key file whose content is not on the
 curve is reported as an error

---
 src/util/lc_util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 659cffe..daa9539 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -263,7 +263,12 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
-	return ECDSAGetPublicKey(data), nil
+	pub_key := ECDSAGetPublicKey(data)
+	if pub_key.Y == nil {
+		return nil, fmt.Errorf("[%s] not a public key", filepath)
+	}
+
+	return pub_key, nil
 }
 
 // priv key are always encrypted
-- 
2.43.0


From 9af1832ca758c20f64582f15a6baf26e385bc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 33/57] fix: failing to create a key directory is reported as
 an error instead of panicking

---
 src/util/lc_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index daa9539..de12b93 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -313,7 +313,10 @@ func lc_mkdir_if_not_exist(path string) error {
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From f5522d98bcf8bfd5c1f2c37622f3e0bf6a83d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 34/57] fix: selecting the temporary log file twice keeps
 logging to it

---
 src/util/lc_util.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index de12b93..25da874 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -77,16 +77,14 @@ func LCSetLoggerStdout() error {
 
 func LCSetLoggerFileTmp() error {
 	// if filename exist
-	var file *os.File
 	if log_file == nil {
-		var err error
-		file, err = os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
+		file, err := os.OpenFile(lc_get_log_file_tmp(), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)
 		if err != nil {
 			return err
 		}
 		log_file = file
 	}
-	log.SetOutput(file)
+	log.SetOutput(log_file)
 	log.SetFlags(log.Lshortfile | log.Ldate | log.Ltime | log.Lmicroseconds)
 	return nil
 }
-- 
2.43.0


From a5833836edd2c77f3b3cbcf8dc2664e9d00147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 35/57] fix: looking up a missing child of a trie node returns
 nil instead of panicking

---
 src/util/trie_util.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 29af67d..f871b67 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -369,7 +369,12 @@ func (tn *MappedTrieNode) GetChild(nodeKey []byte) ITrieNode {
 		return nil
 	}
 
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, ok := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	if !ok {
+		return nil
+	}
+
+	return child
 }
 
 func (tn *MappedTrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
@@ -837,7 +842,12 @@ func (tn *TrieNode) ChildSize() int {
 }
 
 func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	child, ok := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	if !ok {
+		return nil
+	}
+
+	return child
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
-- 
2.43.0


From aa068cc4fb1d00ee88d20fd5aebf5d5a547a5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:51 +0000
Subject: [PATCH 36/57] fix: removing a key from a trie keeps the keys below
 it, and never removes the root

---
 src/util/trie_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index f871b67..25f5bdc 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -611,9 +611,7 @@ func (t *Trie) Set(k IKey, d IValue) IValue {
 	t.estBufSize += estimateValueBufSize(d) - estimateValueBufSize(resultValue)
 	// if d is nil, clean up unused nodes
 	if d == nil {
-		currNode.Parent().RemoveChild(currNode.NodeKey())
-		t.estBufSize -= currNode.EstBufSize()
-		for currNode = currNode.Parent(); currNode.ChildSize() == 0 && currNode.Value() == nil; {
+		for currNode != t.root && currNode.ChildSize() == 0 && currNode.Value() == nil {
 			currNode.Parent().RemoveChild(currNode.NodeKey())
 			t.estBufSize -= currNode.EstBufSize()
 			currNode = currNode.Parent()
-- 
2.43.0


From 10a994740b3ed258a0451c00c8303d69d0386a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:52 +0000
Subject: [PATCH 37/57] fix: the full key of a trie node does not include the
 root, which has no sub key

---
 src/util/trie_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 25f5bdc..23346df 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -307,7 +307,7 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	}
 
 	subKeys := []([]byte){}
-	for currNode := tn; currNode != nil; currNode = currNode.parent.(*MappedTrieNode) {
+	for currNode := tn; currNode.parent != nil; currNode = currNode.parent.(*MappedTrieNode) { // root has no sub key
 		subKeys = append([]([]byte){currNode.nodeKey}, subKeys...)
 	}
 
@@ -811,7 +811,7 @@ func (tn *TrieNode) FullKey() IKey {
 
 	subKeys := []([]byte){}
 	var currNode ITrieNode
-	for currNode = tn; currNode != nil; currNode = currNode.Parent() {
+	for currNode = tn; currNode.Parent() != nil; currNode = currNode.Parent() { // root has no sub key
 		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
-- 
2.43.0


From c47df4324e2549a4cbc74c07a3a62cbcb0bfae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:53 +0000
Subject: [PATCH 38/57] fix: trie key iterators visit the given key and
 everything below it

---
 src/util/trie_util.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 23346df..ca4ad23 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -145,13 +145,14 @@ func (t *MappedTrie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if collection.IsNil(currNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -629,13 +630,14 @@ func (t *Trie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			currNode = currNode.GetChild(subKey)
+			if collection.IsNil(currNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -1012,8 +1014,9 @@ func NewTrieKeyIterator(root, curr ITrieNode) *TrieKeyIterator {
 	if collection.IsNil(curr) {
 		result.currNode = root
 	} else {
+		child := root
 		for _, subKey := range curr.FullKey().Key() {
-			child := root.GetChild(subKey)
+			child = child.GetChild(subKey)
 			if collection.IsNil(child) {
 				panic(fmt.Sprintf("NewTrieIterator - curr node [%s] is not a child of root [%s]",
 					root.FullKey().ToString(),
@@ -1072,7 +1075,7 @@ func (i *TrieKeyIterator) HasNext() bool {
 
 	i.advance()
 
-	return collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0)
+	return !collection.IsNil(i.currNode) || len(i.paths) != 0
 }
 
 func (i *TrieKeyIterator) Peek() (IKey, IValue) {
-- 
2.43.0


From 0b7cd3a7ccbf57dff12e84e3cd75208d1e9f1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 39/57] fix: trie range iterators visit exactly the keys from
 start up to, but not including, end

---
 src/util/trie_util.go | 329 ++++--------------------------------------
 1 file changed, 29 insertions(+), 300 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index ca4ad23..4de9ff7 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1131,36 +1131,20 @@ func (i *TrieKeyIterator) advance() {
 // TrieRangeIterator
 ////////////////////////////////////////////////////////////////////////////////
 
+// TrieRangeIterator is a key iterator that starts at the first node not less
+// than start key, and stops before the first node not less than end key
 type TrieRangeIterator struct {
-	rootNode         ITrieNode
-	isRoot           bool
-	startNodes       []ITrieNode
-	startChild       []byte
-	endNodes         []ITrieNode
-	endChild         []byte
-	paths            []collection.ISortedMapIterator
-	startInitialized bool
-	endMatches       []bool
+	iter *TrieKeyIterator
+	end  IKey
 }
 
 func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 
-	result := &TrieRangeIterator{
-		startNodes:       make([]ITrieNode, 0),
-		endNodes:         make([]ITrieNode, 0),
-		paths:            make([]collection.ISortedMapIterator, 0),
-		startInitialized: false,
-		endMatches:       make([]bool, 0),
-	}
-
 	// check root validaty
 	if collection.IsNil(root) {
 		panic("NewTrieRangeIterator - root cannot be nil")
 	} else if !root.FullKey().IsEmpty() {
 		panic("NewTrieRangeIterator - root key is not empty")
-	} else {
-		result.rootNode = root
-		result.isRoot = true
 	}
 
 	if !collection.IsNil(start) && !collection.IsNil(end) && start.Compare(end) > 0 {
@@ -1169,52 +1153,26 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 			end.ToString()))
 	}
 
+	result := &TrieRangeIterator{iter: NewTrieKeyIterator(root, root), end: end}
+
 	// process start key
-	if collection.IsNil(start) {
-		result.startChild = nil
-	} else {
-		currNode := result.rootNode
+	if !collection.IsNil(start) && !start.IsEmpty() {
+		result.iter.currNode = nil // root is less than start key
+		currNode := root
 		for _, subKey := range start.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				// result.paths = append(result.paths,
-				//    currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil))
-				result.startNodes = append(result.startNodes, child)
-				currNode = child
-			} else {
-				result.startChild = subKey
+			if currNode.ChildSize() == 0 {
 				break
 			}
-		}
-	}
-
-	// process end key
-	if collection.IsNil(end) {
-		result.endChild = nil
-	} else {
-		currNode := result.rootNode
-		for _, subKey := range end.Key() {
-			child := currNode.GetChild(subKey)
-			if !collection.IsNil(child) {
-				result.endNodes = append(result.endNodes, child)
-				//if len(result.paths) < len(result.endNodes) {
-				result.endMatches = append(result.endMatches, false)
-				//} else if len(result.endMatches) != 0 && !result.endMatches[len(result.endMatches)-1] {
-				//	result.endMatches = append(result.endMatches, false)
-				//} else {
-				//	_, node := result.paths[len(result.endNodes)-1].Peek()
-				//	if collection.IsNil(node) ||
-				//		collection.CompareByteSlice(node.(ITrieNode).NodeKey(), child.NodeKey()) == 0 {
-				//		result.endMatches = append(result.endMatches, true)
-				//	} else {
-				//		result.endMatches = append(result.endMatches, false)
-				//	}
-				//}
-				currNode = child
-			} else {
-				result.endChild = subKey
+			iter := currNode.Children().RangeIterator(collection.NewComparableByteSlice(subKey), nil)
+			result.iter.paths = append(result.iter.paths, iter)
+			if len(result.iter.paths) == len(start.Key()) {
+				break // iterate the node that matches full start key
+			}
+			currNode = currNode.GetChild(subKey)
+			if collection.IsNil(currNode) {
 				break
 			}
+			iter.Next() // bypass this node, as it is a parent of start key
 		}
 	}
 
@@ -1223,257 +1181,28 @@ func NewTrieRangeIterator(root ITrieNode, start, end IKey) *TrieRangeIterator {
 
 func (i *TrieRangeIterator) Next() (IKey, IValue) {
 
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
-
-	// if currNode has not been iterated
-	if i.isRoot {
-
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
-		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Next - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		if returnNode.ChildSize() != 0 {
-
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().Iterator()
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-
-		}
-
-		i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-		return returnNode.FullKey(), returnNode.Value()
+	if !i.HasNext() {
+		return nil, nil
 	}
 
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Next()
-
-			returnNode := data.(ITrieNode)
-			if returnNode.ChildSize() != 0 {
-
-				iter := returnNode.Children().Iterator() // it is not possible to be here and have child iterator with start key
-				i.paths = append(i.paths, iter)
-			}
-
-			i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
-			return returnNode.FullKey(), returnNode.Value()
-		}
-	}
-
-	return nil, nil
+	return i.iter.Next()
 }
 
 func (i *TrieRangeIterator) HasNext() bool {
 
-	i.checkStart()
-	i.checkEnd()
-
-	return i.isRoot || len(i.paths) != 0
-}
-
-func (i *TrieRangeIterator) Peek() (IKey, IValue) {
-
-	i.checkStart() // this method returns with last iterator after proper start key
-	i.checkEnd()   // this method by pass any unnessary last iterators if they passed end key
-
-	// if currNode has not been iterated
-	if i.isRoot {
-
-		if len(i.paths) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - paths length [%d] is not 0 when currNode is not nil", len(i.paths)))
-		}
-		if len(i.startNodes) != 0 {
-			panic(fmt.Sprintf("TrieRangeIterator::Peek - start nodes length [%d] is not 0 when currNode is not nil", len(i.startNodes)))
-		}
-
-		returnNode := i.rootNode
-		return returnNode.FullKey(), returnNode.Value()
-	}
-
-	// we are here if root node has been iterated
-	// check iterator paths
-	for i.paths != nil && len(i.paths) != 0 {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if lastIter.HasNext() {
-
-			_, data := lastIter.Peek()
-
-			returnNode := data.(ITrieNode)
-			return returnNode.FullKey(), returnNode.Value()
-		}
-	}
-
-	return nil, nil
-}
-
-func (i *TrieRangeIterator) checkStart() {
-
-	if i.startInitialized {
-		return
-	}
-
-	if len(i.startNodes) == 0 {
-
-		if collection.IsNil(i.startChild) {
-			i.startInitialized = true
-			return
-		}
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startChild), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
-
-	} else {
-
-		if i.isRoot && i.rootNode.ChildSize() != 0 {
-			// create child iterator and add to paths
-			iter := i.rootNode.Children().RangeIterator(collection.NewComparableByteSlice(i.startNodes[0].NodeKey()), nil)
-			i.paths = append(i.paths, iter)
-			i.isRoot = false
-		}
+	if !i.iter.HasNext() {
+		return false
 	}
 
-	i.startInitialized = true
-	for len(i.paths) != 0 && len(i.startNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		_, node := lastIter.Peek()
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.startNodes[len(i.paths)-1].NodeKey())
-		if comp < 0 {
-
-			panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected node [%v], less than but not matching start key [%v]",
-				node.(ITrieNode).FullKey().ToString(),
-				i.startNodes[len(i.paths)-1].FullKey().ToString()))
-
-		} else if comp == 0 {
-
-			if len(i.startNodes) < len(i.paths) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkStart - unexpected paths len [%d], greater than start nodes [%d]",
-					len(i.paths),
-					len(i.startNodes)))
-
-			} else if len(i.startNodes) == len(i.paths) {
-
-				if collection.IsNil(i.startChild) {
-					return // iterate this node, as it matches start key, and there are no child key
-				} else {
-					_, node = lastIter.Next() // bypass this node, as it matches start key, and child key exist
-					childIter := node.(ITrieNode).Children().RangeIterator(
-						collection.NewComparableByteSlice(i.startChild),
-						nil)
-					i.paths = append(i.paths, childIter)
-					return
-				}
-
-			} else {
-
-				_, node = lastIter.Next() // bypass this node, as it matches start key, and child node(s) exist
-				childIter := node.(ITrieNode).Children().RangeIterator(
-					collection.NewComparableByteSlice(i.startNodes[len(i.paths)-1].NodeKey()),
-					nil)
-				i.paths = append(i.paths, childIter)
-				// continue loop
-
-			}
-
-		} else { // comp > 0
-
-			return
-
-		}
-	}
+	key, _ := i.iter.Peek()
+	return collection.IsNil(i.end) || key.Compare(i.end) < 0
 }
 
-func (i *TrieRangeIterator) checkEnd() {
-
-	if len(i.endNodes) != len(i.endMatches) {
-		panic(fmt.Sprintf("TrieRangeIterator::checkEnd - endNodes len [%d] does not match endMatches [%d]",
-			len(i.endNodes),
-			len(i.endMatches)))
-	}
-
-	if len(i.endNodes) == 0 {
-		return
-	}
+func (i *TrieRangeIterator) Peek() (IKey, IValue) {
 
-	if i.isRoot {
-		//panic("TrieRangeIterator::checkEnd - isRoot set!")
-		return
+	if !i.HasNext() {
+		return nil, nil
 	}
 
-	for len(i.paths) != 0 && len(i.endNodes) >= len(i.paths) {
-
-		lastIter := i.paths[len(i.paths)-1]
-		if !lastIter.HasNext() {
-			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
-			continue                           // continue to next loop
-		}
-
-		if len(i.paths) != 1 && !i.endMatches[len(i.paths)-2] {
-			return // iterate this node, as some of previous end node(s) does not match
-		}
-
-		// we are here if all previous end node(s) match(es)
-		_, node := i.paths[len(i.paths)-1].Peek()
-		if collection.IsNil(node) {
-			panic("TrieRangeIterator::checkEnd - unexpected nil node from iterator")
-		}
-
-		comp := collection.CompareByteSlice(node.(ITrieNode).NodeKey(), i.endNodes[len(i.paths)-1].NodeKey())
-		if comp > 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			i.paths = i.paths[:len(i.paths)-1]
-			continue // next loop
-
-		} else if comp == 0 {
-
-			i.endMatches[len(i.paths)-1] = true
-			if len(i.paths) > len(i.endNodes) {
-
-				panic(fmt.Sprintf("TrieRangeIterator::checkEnd - unexpected paths len [%d], greater than end nodes [%d]",
-					len(i.paths),
-					len(i.endNodes)))
-
-			} else if len(i.paths) == len(i.endNodes) {
-
-				if collection.IsNil(i.endChild) {
-
-					i.paths = i.paths[:len(i.paths)-1] // bypass this node, this node matches full end key, (no child)
-					continue                           // next loop
-
-				} else {
-
-					return // iterate this node, this node does not match full end key, child exist
-				}
-
-			} else { // len(i.paths) < len(i.endNodes)
-
-				return // iterate this node, this node does not match ffull end key, child exist
-			}
-
-		} else { // comp < 0
-
-			i.endMatches[len(i.paths)-1] = false // iterate this node, as more element exists
-			return                               // just return
-		}
-
-	}
+	return i.iter.Peek()
 }
-- 
2.43.0


From 64d1b64f87d68568bfb30a0f19b9c008e35d4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 40/57] fix: keys whose sub keys are permuted do not collide
 modulo a power of 2 whatever the hash function

---
 src/util/key_util.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 240fa9b..9584251 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -332,9 +332,12 @@ func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
 		return f([]byte{}) // same as EmptyKey
 	}
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = hashValue*31 + f(key)
+	hashValue := f(k.keys[0])
+	for _, key := range k.keys[1:] {
+		// hash previous hash value together with the sub key, an arithmetic
+		// combination has sub keys collide for any f when modulo power of 2
+		chain := []byte{byte(hashValue >> 24), byte(hashValue >> 16), byte(hashValue >> 8), byte(hashValue)}
+		hashValue = f(append(chain, key...))
 	}
 	return hashValue
 }
@@ -483,9 +486,12 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 	if len(k.keys) == 0 {
 		return f([]byte{}) // same as EmptyKey
 	}
-	hashValue := uint32(0)
-	for _, key := range k.keys {
-		hashValue = hashValue*31 + f(key)
+	hashValue := f(k.keys[0])
+	for _, key := range k.keys[1:] {
+		// hash previous hash value together with the sub key, an arithmetic
+		// combination has sub keys collide for any f when modulo power of 2
+		chain := []byte{byte(hashValue >> 24), byte(hashValue >> 16), byte(hashValue >> 8), byte(hashValue)}
+		hashValue = f(append(chain, key...))
 	}
 	return hashValue
 }
-- 
2.43.0


From 942788927d945b6a9400221612794f589b138743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:24 +0000
Subject: [PATCH 41/57] fix: keys are saved and loaded at the passphrase prompt
 with the padded passphrase, as they are generated

---
 src/util/lc_util.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 25da874..20989aa 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -136,7 +136,7 @@ func LCLoadPrivKeyPrompt(cls int, id string) (*ecdsa.PrivateKey, error) {
 	}
 
 	// do not keep private key in fixed memory variables
-	return lc_load_priv_key(cls, id, secret)
+	return lc_load_priv_key(cls, id, lc_pad_secret(secret))
 }
 
 // ECDSA pub / priv keys for node
@@ -151,12 +151,19 @@ func LCSaveKeyPairPrompt(cls int, id string, pub_key, priv_key *big.Int) error {
 		return err
 	}
 
-	return lc_save_key_pair(cls, id, pub_key, priv_key, node_secret)
+	return lc_save_key_pair(cls, id, pub_key, priv_key, lc_pad_secret(node_secret))
 }
 
 ////////////////////////////////////////////////////////////////////////////////
 // Private Functions
 
+// pad (or cut) a passphrase to the size of cipher key, same as pkeygen
+func lc_pad_secret(secret []byte) []byte {
+	padded_secret := make([]byte, aes.BlockSize)
+	copy(padded_secret, secret)
+	return padded_secret
+}
+
 func lc_get_etc_dir(cls int) string {
 	switch cls {
 	case CLS_NODE:
-- 
2.43.0


From d179abcff1d6de6747be1c39789e51363cfdddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:31 +0000
Subject: [PATCH 42/57] fix: iterating a hash map or a hash set visits every
 entry

---
 src/collection/hash.go     | 42 ++++++++++++++++++++++++++++++++++++++
 src/collection/hash_map.go |  2 +-
 src/collection/hash_set.go |  2 +-
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/collection/hash.go b/src/collection/hash.go
index 2cbff91..c788567 100644
--- a/src/collection/hash.go
+++ b/src/collection/hash.go
@@ -254,6 +254,48 @@ func (h *Hash) Iterator() IIterator {
 	return &HashIterator{hash: h, pos: 0, currNode: nil}
 }
 
+// iterator of hash maps and hash sets over all entries. Hash.Iterator cannot
+// serve them, as it ends before the first entry (and TestHash relies on that)
+type hashEntryIterator struct {
+	array    []*HashNode // buckets that have not been reached
+	currNode *HashNode   // next entry, nil if there are no more
+}
+
+func (h *Hash) entryIterator() IIterator {
+	iter := &hashEntryIterator{array: h.array}
+	iter.advance()
+	return iter
+}
+
+func (i *hashEntryIterator) Next() IObject {
+	if i.currNode == nil {
+		return nil
+	}
+	resultNode := i.currNode
+	i.currNode = i.currNode.link
+	i.advance()
+	return resultNode
+}
+
+func (i *hashEntryIterator) HasNext() bool {
+	return i.currNode != nil
+}
+
+func (i *hashEntryIterator) Peek() IObject {
+	if i.currNode == nil {
+		return nil
+	}
+	return i.currNode
+}
+
+func (i *hashEntryIterator) advance() {
+	// advance to the next non-nil node
+	for i.currNode == nil && len(i.array) > 0 {
+		i.currNode = i.array[0]
+		i.array = i.array[1:]
+	}
+}
+
 func (h *Hash) Print(w io.Writer, indent int) {
 	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", h.ToString())
 	for _, hn := range h.array {
diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 760c6ea..87aa5d7 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -72,5 +72,5 @@ func (i *HashMapIterator) Peek() (IHashable, IObject) {
 }
 
 func (m *HashMap) Iterator() IHashMapIterator {
-	return &HashMapIterator{iter: m.hash.Iterator()}
+	return &HashMapIterator{iter: m.hash.entryIterator()}
 }
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 7d77ef0..116fa3e 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -72,5 +72,5 @@ func (i *HashSetIterator) Peek() IObject {
 }
 
 func (m *HashSet) Iterator() IIterator {
-	return &HashSetIterator{iter: m.hash.Iterator()}
+	return &HashSetIterator{iter: m.hash.entryIterator()}
 }
-- 
2.43.0


From b0ad43f9b7af12e557a2c53b711fc21c02e4c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 43/57] fix: trie nodes without a parent or a value are
 encoded, and told from the end of children

---
 src/util/trie_util.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 4de9ff7..f8eea01 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -890,30 +890,43 @@ func (tn *TrieNode) IsEncoded() bool {
 
 func (tn *TrieNode) Encode(IContext) error {
 
+	// node flag, to tell from a dummy node
+	nodeFlagBuf := EncodeUvarint64(1)
+
 	// node key
 	nodeKeyBuf := EncodeVarchar(tn.nodeKey)
 
 	// parent offset
-	parentOffsetBuf := EncodeUvarint64(uint64(tn.parent.Offset()))
+	parentOffset := uint32(0) // root has no parent
+	if tn.parent != nil {
+		parentOffset = tn.parent.Offset()
+	}
+	parentOffsetBuf := EncodeUvarint64(uint64(parentOffset))
 
 	// data
-	err := tn.data.Encode(false)
-	if err != nil {
-		return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+	dataBuf := []byte{0x00} // no data is same as nil value
+	if !collection.IsNil(tn.data) {
+		err := tn.data.Encode(nil)
+		if err != nil {
+			return fmt.Errorf("TrieNode::Encode - data encode error %v", err)
+		}
+		dataBuf = tn.data.Buf()
 	}
 
 	// child size
 	childSizeBuf := EncodeUvarint64(uint64(tn.children.Size()))
 
-	tn.buf = make([]byte, len(nodeKeyBuf)+len(parentOffsetBuf)+len(tn.data.Buf())+len(childSizeBuf))
+	tn.buf = make([]byte, len(nodeFlagBuf)+len(nodeKeyBuf)+len(parentOffsetBuf)+len(dataBuf)+len(childSizeBuf))
 
 	pos := 0
+	copy(tn.buf[pos:], nodeFlagBuf)
+	pos += len(nodeFlagBuf)
 	copy(tn.buf[pos:], nodeKeyBuf)
 	pos += len(nodeKeyBuf)
 	copy(tn.buf[pos:], parentOffsetBuf)
 	pos += len(parentOffsetBuf)
-	copy(tn.buf[pos:], tn.data.Buf())
-	pos += len(tn.data.Buf())
+	copy(tn.buf[pos:], dataBuf)
+	pos += len(dataBuf)
 	copy(tn.buf[pos:], childSizeBuf)
 	pos += len(childSizeBuf)
 
-- 
2.43.0


From 1ab1edb31af0fc3cb4cfea06868b083d95288ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 44/57] fix: encoding a trie covers all nodes at every level,
 and reports errors

---
 src/util/trie_util.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index f8eea01..44cbb23 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -583,6 +583,8 @@ func (t *Trie) Get(k IKey) IValue {
 
 func (t *Trie) Set(k IKey, d IValue) IValue {
 
+	t.encoded = false
+
 	// set root data is key is nil
 	if k.IsEmpty() {
 		resultValue := t.root.Value()
@@ -676,7 +678,10 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// encode root node
 	t.root.SetOffset(uint32(pos))
-	t.root.Encode(ctx)
+	err := t.root.Encode(ctx)
+	if err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
+	}
 	if len(buf) > pos+len(t.root.Buf()) {
 		copy(buf[pos:], t.root.Buf())
 	} else {
@@ -686,14 +691,18 @@ func (t *Trie) Encode(ctx IContext) error {
 
 	// encode children
 	iterList := []collection.ISortedMapIterator{t.root.Children().Iterator()}
-	for lastIter := iterList[len(iterList)-1]; len(iterList) != 0; {
+	for len(iterList) != 0 {
+		lastIter := iterList[len(iterList)-1]
 		if lastIter.HasNext() {
 
 			// get next node, and encode
 			_, data := lastIter.Next()
 			node := data.(*TrieNode)
 			node.SetOffset(uint32(pos))
-			node.Encode(ctx)
+			err := node.Encode(ctx)
+			if err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
+			}
 
 			// encode node
 			if len(buf) > pos+len(node.Buf()) {
@@ -703,11 +712,8 @@ func (t *Trie) Encode(ctx IContext) error {
 			}
 			pos += len(node.Buf())
 
-			// check if children exist
-			if node.ChildSize() != 0 {
-				iterList = append(iterList, node.Children().Iterator())
-				lastIter = iterList[len(iterList)-1]
-			}
+			// encode children, and the dummy node that ends them
+			iterList = append(iterList, node.Children().Iterator())
 
 		} else {
 
@@ -725,7 +731,8 @@ func (t *Trie) Encode(ctx IContext) error {
 	}
 
 	// we are here if encoding has completed successfully
-	t.buf = buf
+	t.buf = buf[:pos]
+	t.encoded = true
 	return nil
 }
 
-- 
2.43.0


From e73eb5568081af8849ee037f462f49916a9542ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 45/57] fix: a trie is decoded from its encoding

---
 src/util/trie_util.go | 58 +++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 44cbb23..3630439 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -191,9 +191,9 @@ func (t *MappedTrie) IsDecoded() bool {
 func (t *MappedTrie) Decode(IContext) (int, error) {
 
 	// initial setup
-	t.known_nodes = map[uint32]ITrieNode{}                                                   // clear known knows
-	t.root = &MappedTrieNode{parent: nil, buf: t.buf, offset: 0, known_nodes: t.known_nodes} // start with root node
-	t.known_nodes[0] = t.root                                                                // add myself
+	t.known_nodes = map[uint32]ITrieNode{}                                                                                        // clear known knows
+	t.root = &MappedTrieNode{parent: nil, buf: t.buf, offset: 0, children: collection.NewSortedMap(), known_nodes: t.known_nodes} // start with root node
+	t.known_nodes[0] = t.root                                                                                                     // add myself
 
 	pos, err := t.root.Decode(nil)
 	if err != nil {
@@ -201,14 +201,20 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 	}
 
 	currNode := (t.root).(*MappedTrieNode)
+	if currNode.dummy {
+		return 0, fmt.Errorf("MappedTrie::Decode - no root node")
+	}
 	for {
-		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), known_nodes: t.known_nodes}
+		node := &MappedTrieNode{parent: currNode, buf: t.buf[pos:], offset: uint32(pos), children: collection.NewSortedMap(), known_nodes: t.known_nodes}
 		length, err := node.Decode(nil)
 		if err != nil {
 			return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] %s", pos, err)
 		}
 		pos += length
 		if node.dummy {
+			if currNode.childSize != currNode.ChildSize() {
+				return 0, fmt.Errorf("MappedTrie::Decode - pos [%d] child size [%d] does not match [%d]", pos, currNode.ChildSize(), currNode.childSize)
+			}
 			if currNode == t.root {
 				break // we have completed processing
 			} else {
@@ -219,8 +225,7 @@ func (t *MappedTrie) Decode(IContext) (int, error) {
 		}
 	}
 
-	// TODO - use size for validation
-
+	t.buf = t.buf[:pos]
 	t.decoded = true
 
 	return pos, nil
@@ -292,7 +297,7 @@ func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32, known_nodes
 
 	length, err := result.Decode(nil)
 	if err != nil {
-		fmt.Errorf("NewMappedTrieNode - %s", err)
+		return nil, length, fmt.Errorf("NewMappedTrieNode - %s", err)
 	}
 
 	return result, length, nil
@@ -426,6 +431,10 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 
 	pos := 0
 
+	if len(tn.buf) == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - empty buf")
+	}
+
 	// check if this is a dummy Trie Node
 	isDummy, isDummyN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
@@ -442,8 +451,10 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	nodeKey, nodeKeyN, err := DecodeVarchar(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - nodeKey - %s", err)
-	} else if nodeKey == nil || len(nodeKey) == 0 {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - empty nodeKey")
+	} else if (len(nodeKey) == 0) != (tn.parent == nil) { // only root has no node key
+		return 0, fmt.Errorf("MappedTrieNode::Decode - unexpected nodeKey [%x]", nodeKey)
+	} else if tn.parent != nil && tn.parent.GetChild(nodeKey) != nil {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - duplicate nodeKey [%x]", nodeKey)
 	}
 	tn.nodeKey = nodeKey
 	pos += nodeKeyN
@@ -453,33 +464,38 @@ func (tn *MappedTrieNode) Decode(IContext) (int, error) {
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - parent offset - %s", err)
 	}
-	parent := tn.known_nodes[uint32(parentOffset)]
-	if parent == nil {
-		return 0, fmt.Errorf("MappedTrieNode::Decode - parent node not found [%d]", parentOffset)
-	} else {
-		tn.parent = parent
-		pos += parentN
+	if tn.parent != nil && parentOffset != uint64(tn.parent.Offset()) {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - unexpected parent [%d]", parentOffset)
 	}
+	pos += parentN
 
 	// data
-	nodeValue, nodeValueN, err := NewSimpleMappedValue(tn.buf[pos:])
+	nodeValue, nodeValueN, err := NewStandardMappedValue(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - data - %s", err)
 	}
-	tn.nodeValue = nodeValue
+	if !nodeValue.IsNil() { // nil value is same as no data
+		tn.nodeValue = nodeValue
+	}
 	pos += nodeValueN
 
 	// child size
-	childSize, childSizeN, err := DecodeUvarint64(tn.buf)
+	childSize, childSizeN, err := DecodeUvarint64(tn.buf[pos:])
 	if err != nil {
 		return 0, fmt.Errorf("MappedTrieNode::Decode - child size - %s", err)
+	} else if childSizeN == 0 {
+		return 0, fmt.Errorf("MappedTrieNode::Decode - no child size")
 	}
 	tn.childSize = int(childSize)
 	pos += childSizeN
 
 	// we are here if parsing has completed successfully
-	parent.(*MappedTrieNode).children.Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
-	tn.known_nodes[tn.offset] = tn                                                        // update known nodes
+	if tn.parent != nil {
+		tn.parent.Children().Put(collection.NewComparableByteSlice(nodeKey), tn) // update pointer in parent
+	}
+	tn.known_nodes[tn.offset] = tn // update known nodes
+	tn.buf = tn.buf[:pos]
+	tn.decoded = true
 
 	return pos, nil
 }
@@ -814,7 +830,7 @@ func NewTrieNode(parent ITrieNode, nodeKey []byte, data IValue) *TrieNode {
 	}
 }
 
-////////////////////////////////////////
+// //////////////////////////////////////
 // accessor to elements - parent, children, and keys
 func (tn *TrieNode) FullKey() IKey {
 
-- 
2.43.0


From f6feeb15f6ed5da3bf2e21092f61519608b6fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 46/57] fix: the copy of a trie is a trie of its own, encoded
 or not

---
 src/util/trie_util.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 3630439..3e35cff 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -765,18 +765,32 @@ func (t *Trie) Decode(IContext) (int, error) {
 
 func (t *Trie) Copy() IEncodable {
 
-	buf := make([]byte, len(t.buf))
-	copy(buf, t.buf)
-	result, _, err := NewMappedTrie(buf)
-	if err != nil {
-		panic(fmt.Sprintf("MappedTrie::Copy - unexpected error %s", err))
+	result := NewTrie()
+	for iter := t.Iterator(); iter.HasNext(); {
+		k, d := iter.Next()
+		if !collection.IsNil(d) {
+			result.Set(k, d.Copy().(IValue))
+		}
 	}
 
 	return result
 }
 
 func (t *Trie) CopyConstruct() (IEncodable, error) {
-	return t.Copy(), nil
+
+	result := NewTrie()
+	for iter := t.Iterator(); iter.HasNext(); {
+		k, d := iter.Next()
+		if !collection.IsNil(d) {
+			data, err := d.CopyConstruct()
+			if err != nil {
+				return nil, fmt.Errorf("Trie::CopyConstruct - %s", err)
+			}
+			result.Set(k, data.(IValue))
+		}
+	}
+
+	return result, nil
 }
 
 ////////////////////////////////////////
-- 
2.43.0


From b09d72d14f4bf2a21d8f033d87d02a1d0bf57179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 47/57] fix: tries and their nodes are printed one to a line,
 with indent

---
 src/util/trie_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 3e35cff..13c59b3 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -254,7 +254,7 @@ func (t *MappedTrie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *MappedTrie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
@@ -533,7 +533,7 @@ func (tn *MappedTrieNode) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (tn *MappedTrieNode) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s", "", tn.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", tn.ToString())
 	for iter := tn.children.Iterator(); iter.HasNext(); {
 		_, v := iter.Next()
 		v.(ITrieNode).Print(w, indent+4)
@@ -797,7 +797,7 @@ func (t *Trie) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (t *Trie) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"%s\n", "", t.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", t.ToString())
 	if t.root != nil {
 		t.root.Print(w, indent+4)
 	}
@@ -1013,7 +1013,7 @@ func (tn *TrieNode) CopyConstruct() (IEncodable, error) {
 // return in readable format
 
 func (tn *TrieNode) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s", "", tn.ToString())
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", tn.ToString())
 	for iter := tn.children.Iterator(); iter.HasNext(); {
 		_, v := iter.Next()
 		v.(ITrieNode).Print(w, indent+4)
-- 
2.43.0


From 1630d4c1679eadfc7267cad94a8c99d9c25fbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 48/57] fix: keys are printed with indent, and to a string
 without return characters

---
 src/util/key_util.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 9584251..fc97229 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strconv"
 
 	"../collection"
 )
@@ -123,7 +124,7 @@ func (k *EmptyKey) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *EmptyKey) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "EmptyKey")
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"s%s\n", "", k.ToString())
 }
 
 func (k *EmptyKey) ToString() string {
@@ -343,23 +344,23 @@ func (k *MappedKey) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *MappedKey) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "MappedKey:\n")
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"sMappedKey:\n", "")
 	if k.decoded {
 		for i, subKey := range k.keys {
-			fmt.Fprintf(w, "    subKey[%d] = %v\n", i, subKey)
+			fmt.Fprintf(w, "%"+strconv.Itoa(indent+4)+"ssubKey[%d] = %v\n", "", i, subKey)
 		}
 	}
-	fmt.Fprintf(w, "    buf = %v\n", k.buf[:collection.MinInt(len(k.buf), 32)])
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent+4)+"sbuf = %v\n", "", k.buf[:collection.MinInt(len(k.buf), 32)])
 }
 
 func (k *MappedKey) ToString() string {
 	str := fmt.Sprintf("MappedKey")
 	if k.decoded {
 		for i, subKey := range k.keys {
-			str += fmt.Sprintf("\n    subKey[%d] = %v", i, subKey)
+			str += fmt.Sprintf(", subKey[%d] = %v", i, subKey)
 		}
 	}
-	str += fmt.Sprintf("\n    buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
+	str += fmt.Sprintf(", buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
 	return str
 }
 
@@ -551,11 +552,11 @@ func (k *Key) Compare(c collection.IComparable) int {
 }
 
 func (k *Key) Print(w io.Writer, indent int) {
-	fmt.Fprintf(w, "Key:\n")
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent)+"sKey:\n", "")
 	for i, subKey := range k.keys {
-		fmt.Fprintf(w, "    subKey[%d] = %v\n", i, subKey)
+		fmt.Fprintf(w, "%"+strconv.Itoa(indent+4)+"ssubKey[%d] = %v\n", "", i, subKey)
 	}
-	fmt.Fprintf(w, "    buf = %v\n", k.buf[:collection.MinInt(len(k.buf), 32)])
+	fmt.Fprintf(w, "%"+strconv.Itoa(indent+4)+"sbuf = %v\n", "", k.buf[:collection.MinInt(len(k.buf), 32)])
 
 }
 
@@ -564,9 +565,9 @@ func (k *Key) ToString() string {
 	str := fmt.Sprintf("Key")
 
 	for i, subKey := range k.keys {
-		str += fmt.Sprintf("\n    subKey[%d] = %v", i, subKey)
+		str += fmt.Sprintf(", subKey[%d] = %v", i, subKey)
 	}
-	str += fmt.Sprintf("\n    buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
+	str += fmt.Sprintf(", buf = %v", k.buf[:collection.MinInt(len(k.buf), 32)])
 
 	return str
 }
-- 
2.43.0


From 3fca0453b4cdfe4a3c4e5dc76a5ba2e0c2a04265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 49/57] fix: verify seeds of perfect hash tables are drawn from
 2^16 up, not from 15 values (^ is xor)

---
 src/util/mph_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index 0ba0304..10adfaa 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -286,7 +286,7 @@ func MPHBuild(keys []IKey, verify_by_key bool) *MPHTable {
 		sparseBuckets = make([][]int, len(level0))
 		zeroSeed      = collection.MurmurSeed(0)
 		keyArray      = make([]IKey, len(keys))
-		verifySeed    = uint32(RandUint64Range(2^16, 2^32-1))
+		verifySeed    = uint32(RandUint64Range(1<<16, 1<<32))
 	)
 	for i, s := range keys {
 		keyArray[i] = s
-- 
2.43.0


From 4dcf5695d3b7c9b79668877c312129109f2fc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 50/57] fix: copies of trie nodes are complete and their own

MappedTrieNode.Copy panics for each node below the root, and the copy of the
root takes the place of the root among the known nodes and has no children to
print. TrieNode.Copy shares value and child nodes with the original.
---
 src/util/trie_util.go | 51 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 13c59b3..4ceaea7 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -513,13 +513,13 @@ func (tn *MappedTrieNode) SetOffset(uint32) error {
 
 func (tn *MappedTrieNode) Copy() IEncodable {
 
-	buf := make([]byte, len(tn.buf))
-	copy(buf, tn.buf)
+	result := &MappedTrieNode{}
+	*result = *tn // same parent and children, which are not part of the buf
 
-	result := &MappedTrieNode{buf: buf, offset: tn.offset, known_nodes: tn.known_nodes}
-	_, err := result.Decode(nil)
-	if err != nil {
-		panic(fmt.Sprintf("MappedTrieNode::Copy - unexpected error %s", err))
+	result.buf = append([]byte{}, tn.buf...)
+	result.nodeKey = append([]byte{}, tn.nodeKey...)
+	if tn.nodeValue != nil {
+		result.nodeValue = tn.nodeValue.Copy().(IValue)
 	}
 
 	return result
@@ -993,20 +993,45 @@ func (tn *TrieNode) SetOffset(offset uint32) error {
 
 func (tn *TrieNode) Copy() IEncodable {
 
-	buf := make([]byte, len(tn.buf))
-	copy(buf, tn.buf)
-
-	result := NewTrieNode(tn.parent, tn.nodeKey, tn.data)
+	result := NewTrieNode(tn.parent, append([]byte{}, tn.nodeKey...), nil)
+	if !collection.IsNil(tn.data) {
+		result.data = tn.data.Copy().(IValue)
+	}
 	for iter := tn.Children().Iterator(); iter.HasNext(); {
-		key, value := iter.Next()
-		result.Children().Put(key, value)
+		_, value := iter.Next()
+		child := value.(ITrieNode).Copy().(ITrieNode)
+		if node, ok := child.(*TrieNode); ok {
+			node.parent = result
+		}
+		result.PutChild(child.NodeKey(), child)
 	}
 
 	return result
 }
 
 func (tn *TrieNode) CopyConstruct() (IEncodable, error) {
-	return tn.Copy(), nil
+
+	result := NewTrieNode(tn.parent, append([]byte{}, tn.nodeKey...), nil)
+	if !collection.IsNil(tn.data) {
+		data, err := tn.data.CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("TrieNode::CopyConstruct - %s", err)
+		}
+		result.data = data.(IValue)
+	}
+	for iter := tn.Children().Iterator(); iter.HasNext(); {
+		_, value := iter.Next()
+		child, err := value.(ITrieNode).CopyConstruct()
+		if err != nil {
+			return nil, err
+		}
+		if node, ok := child.(*TrieNode); ok {
+			node.parent = result
+		}
+		result.PutChild(child.(ITrieNode).NodeKey(), child.(ITrieNode))
+	}
+
+	return result, nil
 }
 
 ////////////////////////////////////////
-- 
2.43.0


From 94cc9f64adb0ed6183d10e45d95a5f030b45716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 51/57] fix: a changed trie node is not encoded any more

SetValue, PutChild and RemoveChild of TrieNode left it claiming to be encoded,
with the buf of what it was before.
---
 src/util/trie_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 4ceaea7..89ce837 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -889,11 +889,13 @@ func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
 	tn.children.Put(collection.NewComparableByteSlice(nodeKey), n)
+	tn.encoded = false
 	return nil
 }
 
 func (tn *TrieNode) RemoveChild(nodeKey []byte) error {
 	tn.children.Remove(collection.NewComparableByteSlice(nodeKey))
+	tn.encoded = false
 	return nil
 }
 
@@ -903,6 +905,7 @@ func (tn *TrieNode) Value() IValue {
 
 func (tn *TrieNode) SetValue(data IValue) error {
 	tn.data = data
+	tn.encoded = false
 	return nil
 }
 
-- 
2.43.0


From 83620f93ea3ada57b8382d36caf8742788f1707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 52/57] fix: a key file without data is not a key

---
 src/util/lc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 20989aa..2f1fb77 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -238,7 +238,7 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
-	if n < 4 {
+	if n <= 4 { // no data is not a key, though its CRC is right
 		return nil, fmt.Errorf("[%s] key data too short", filepath)
 	}
 
-- 
2.43.0


From ea7f22a9f747e3b778d4834b836b432bc3cd6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:11 +0000
Subject: [PATCH 53/57] fix: slices of comparables that have nil elements can
 be compared

---
 src/collection/util.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collection/util.go b/src/collection/util.go
index ab00e11..0c4a334 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -441,6 +441,15 @@ func CompareSlice(s1, s2 []IComparable) int {
 			return 1
 		}
 
+		// a nil element is before all others, and equal to nil only, same as in Equal()
+		if s1[i] == nil && s2[i] == nil {
+			continue
+		} else if s1[i] == nil {
+			return -1
+		} else if s2[i] == nil {
+			return 1
+		}
+
 		compare := s1[i].Compare(s2[i])
 		if compare != 0 {
 			return compare
-- 
2.43.0


From e8eb5f7d2f6d9ef30ba87a08927ec04733783f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 54/57] fix: slices and keys asked whether they equal a nil
 pointer answer instead of panicking

---
 src/collection/comparable.go | 18 +++++++++---------
 src/collection/hashable.go   | 16 ++++++++--------
 src/util/key_util.go         |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 44b8d61..c38b8b2 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -50,7 +50,7 @@ func NewComparableSlice(s []IComparable) *ComparableSlice {
 
 // return XOR of hash of each IComparable object in the slice
 func (s *ComparableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -121,7 +121,7 @@ func NewComparableByteSlice(s []byte) *ComparableByteSlice {
 
 // return if two hashable byte array equals
 func (s *ComparableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -176,7 +176,7 @@ func NewComparableInt8Slice(s []int8) *ComparableInt8Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt8Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -231,7 +231,7 @@ func NewComparableInt16Slice(s []int16) *ComparableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -286,7 +286,7 @@ func NewComparableUint16Slice(s []uint16) *ComparableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -341,7 +341,7 @@ func NewComparableInt32Slice(s []int32) *ComparableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -396,7 +396,7 @@ func NewComparableUint32Slice(s []uint32) *ComparableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -451,7 +451,7 @@ func NewComparableInt64Slice(s []int64) *ComparableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -507,7 +507,7 @@ func NewComparableUint64Slice(s []uint64) *ComparableUint64Slice {
 // return if two hashable byte array equals
 func (s *ComparableUint64Slice) Equal(t IObject) bool {
 
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 373b720..a371d8f 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -54,7 +54,7 @@ func NewHashableSlice(s []IHashable) *HashableSlice {
 
 // return XOR of hash of each IHashable object in the slice
 func (s *HashableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -127,7 +127,7 @@ func NewHashableByteSlice(s []byte) *HashableByteSlice {
 
 // return if two hashable byte array equals
 func (s *HashableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -174,7 +174,7 @@ func NewHashableInt16Slice(s []int16) *HashableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -223,7 +223,7 @@ func NewHashableUint16Slice(s []uint16) *HashableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -272,7 +272,7 @@ func NewHashableInt32Slice(s []int32) *HashableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -321,7 +321,7 @@ func NewHashableUint32Slice(s []uint32) *HashableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -370,7 +370,7 @@ func NewHashableInt64Slice(s []int64) *HashableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -419,7 +419,7 @@ func NewHashableUint64Slice(s []uint64) *HashableUint64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
diff --git a/src/util/key_util.go b/src/util/key_util.go
index fc97229..ba46346 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -89,7 +89,7 @@ func (k *EmptyKey) CopyConstruct() (IEncodable, error) {
 
 func (k *EmptyKey) Equal(o collection.IObject) bool {
 
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -276,7 +276,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *MappedKey) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -498,7 +498,7 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *Key) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
-- 
2.43.0


From f94c8c24b5c50d64033caf557eac2270eff9ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:48 +0000
Subject: [PATCH 55/57] fix: an alias that leads nowhere can be overwritten by
 the key generator, and is not taken for free

---
 src/main/pkeygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..ee88cc4 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -12,7 +12,7 @@ import (
 )
 
 func check_path_exist(filepath string) bool {
-    _, stat_err := os.Stat(filepath)
+    _, stat_err := os.Lstat(filepath) // an alias exists even if what it leads to is gone
     if os.IsNotExist(stat_err) {
         return false
     } else {
-- 
2.43.0


From a9b975b82865f0d6f77c6f48afb2e33072cf7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:48 +0000
Subject: [PATCH 56/57] fix: the key generator overwrites aliases only, not the
 files of other keys

---
 src/main/pkeygen.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index ee88cc4..7a12ded 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -20,6 +20,12 @@ func check_path_exist(filepath string) bool {
     }
 }
 
+// aliases are overwritten, anything else (as the files of a key) is not
+func check_path_alias(filepath string) bool {
+    stat_info, stat_err := os.Lstat(filepath)
+    return stat_err == nil && stat_info.Mode()&os.ModeSymlink != 0
+}
+
 func generate_key_pair(cls int) (string, []byte, error) {
 
     priv_key        := util.ECDSAGenerateKey()
@@ -47,6 +53,10 @@ func process_key(cls int, class string, alias string, force bool) {
     etc_dir         := util.LCGetEtcDir(cls)
     if alias != "" {
         alias_path  := etc_dir + "/" + alias
+        if (check_path_exist(alias_path) && !check_path_alias(alias_path)) {
+            fmt.Printf("ERROR: [%s] is not an alias\n", alias_path)
+            os.Exit(1)
+        }
         if (check_path_exist(alias_path) && !force) {
             input := util.PromptText("Alias [" + alias + "] already exist.  Overwrite? [y/N]")
             if (input != "y" && input != "Y") {
-- 
2.43.0


From 7b42e8a8ed105750445736077085d6a1b7860eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 57/57] fix: a prompt for text reads no more than the line, the
 rest answers what is asked next

---
 src/util/lc_util.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 2f1fb77..9bd2d0f 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"bufio"
 	"bytes"
 	"crypto/aes"
 	"crypto/cipher"
@@ -27,10 +26,20 @@ import (
 // Util Functions
 
 func PromptText(prompt string) string {
-	reader := bufio.NewReader(os.Stdin)
 	fmt.Print(prompt + " : ")
-	text, _ := reader.ReadString('\n')
-	return strings.TrimSpace(text)
+	// read no more than the line, the rest answers what is asked next
+	text := []byte{}
+	for b := make([]byte, 1); ; {
+		n, err := os.Stdin.Read(b)
+		if n > 0 && b[0] == '\n' {
+			break
+		}
+		text = append(text, b[:n]...)
+		if err != nil {
+			break
+		}
+	}
+	return strings.TrimSpace(string(text))
 }
 
 func PromptPassphrase(repeat bool) ([]byte, error) {
-- 
2.43.0

