From 7086873785ae214546a558b2d27534deb697778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 01/59] fix: Array.set copies a shared buffer before writing to
 it

---
 Sources/Srt/Srl/Array.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 9be913f..0f34d64 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -110,6 +110,7 @@ import "Memory";
             if index < 0 || index >= this.getLength() {
                 this.add(item);
             } else {
+                this._prepareToModify(false);
                 this.buf(index)~no_deref = item;
             };
         }
-- 
2.43.0


From 6099d36be1387902bae29c2fc579254fa738ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 02/59] fix: assigning an Array to itself keeps its content

---
 Sources/Srt/Srl/Array.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 0f34d64..e893649 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -67,6 +67,7 @@ import "Memory";
         };
 
         handler this.assign (ary: ref[Array[T]]) {
+            if this.data~ptr == ary.data~ptr return;
             this._release();
             this.data~no_deref = ary.data;
             if this.data~ptr != 0 {
-- 
2.43.0


From 71dd63d46fe3e586cf9b84f61e620cc94633c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 03/59] fix: Array.reserve does not reallocate a buffer that
 other arrays share

---
 Sources/Srt/Srl/Array.alusus | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index e893649..25531ce 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -53,7 +53,10 @@ import "Memory";
 
         handler this.reserve(size: ArchInt) {
             if this.data~ptr == 0 this.data~no_deref = ArrayData[T].alloc(size)
-            else if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            else if size > this.bufSize {
+                this._prepareToModify(false);
+                if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            }
         }
 
         handler this.getLength (): ArchInt {
-- 
2.43.0


From 923c96dc49b3d099c86bb0e117a32cf3e71ff038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 04/59] fix: ArrayIndex updates do not write to index entries
 shared with a copied map

---
 Sources/Srt/Srl/ArrayIndex.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/ArrayIndex.alusus b/Sources/Srt/Srl/ArrayIndex.alusus
index c7d590b..988e496 100644
--- a/Sources/Srt/Srl/ArrayIndex.alusus
+++ b/Sources/Srt/Srl/ArrayIndex.alusus
@@ -53,7 +53,7 @@ import "Memory";
                 // First update the existing indices.
                 def j: ArchInt;
                 for j = 0, j < this.indices.getLength(), ++j {
-                    if this.indices(j) >= i { ++this.indices(j) };
+                    if this.indices(j) >= i this.indices.set(j, this.indices(j) + 1);
                 }
                 // Now insert the new value.
                 def pos: ArchInt;
@@ -74,7 +74,7 @@ import "Memory";
                     this.indices.remove(j);
                     --j;
                 } else if this.indices(j) > i {
-                    --this.indices(j);
+                    this.indices.set(j, this.indices(j) - 1);
                 }
             }
         }
-- 
2.43.0


From 84f6dbd1de25262f0a4e5bfae1bca354a34b951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 05/59] fix: Map.setAt does not write to values shared with a
 copied map

---
 Sources/Srt/Srl/Map.alusus | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index b80994c..a7e6b51 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -117,7 +117,7 @@ import "System";
             if i < 0 || i >= this.keys.getLength() {
                 System.fail(1, "Argument `i` is out of range.");
             }
-            this.values(i) = value;
+            this.values.set(i, value);
             return this;
         }
 
-- 
2.43.0


From 668bb16c5079f62e2ae3339a6d67cb39267e9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 06/59] fix: Map.insert passes the position to the key and
 value arrays

---
 Sources/Srt/Srl/Map.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index a7e6b51..f664cff 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -122,8 +122,8 @@ import "System";
         }
 
         handler this.insert(i: ArchInt, key: T1, value: T2) {
-            this.keys.insert(key);
-            this.values.insert(value);
+            this.keys.insert(i, key);
+            this.values.insert(i, value);
             if this.keysIndex~ptr != 0 this.keysIndex.add(i);
         }
 
-- 
2.43.0


From 94d45a7db62b94f597e78b71da731c6bafc17c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 07/59] fix: assigning or appending a string to itself keeps
 its content

---
 Sources/Srt/Srl/String.alusus | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index b074adb..7d88f4a 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -103,6 +103,7 @@ import "Array";
         }
 
         handler this.assign (str: ref[StringBase[T]]) {
+            if this.refCount~ptr == str.refCount~ptr and this.buf == str.buf return;
             this._release();
             this.refCount~ptr = str.refCount~ptr;
             this.buf = str.buf;
@@ -112,18 +113,19 @@ import "Array";
         };
 
         handler this.assign (buf: ptr[array[T]]) {
-            this._release();
-            if buf != 0 {
-                this._alloc(getLength(buf));
-                copy(this.buf, buf);
-            }
+            if buf == 0 this._release() else this.assign(buf, getLength(buf));
         };
 
         handler this.assign (buf: ptr[array[T]], n: ArchInt) {
-            this._release();
+            // The given buf can be a part of the current buffer, so the latter is released last.
+            def prevRefCount: ref[Int[32]](this.refCount);
             this._alloc(n);
             copy(this.buf, buf, n);
             this.buf~cnt(n) = 0;
+            if prevRefCount~ptr != 0 {
+                --prevRefCount;
+                if prevRefCount == 0 Memory.free(prevRefCount~ptr);
+            };
         };
 
         handler this.append (buf: ptr[array[T]]) {
@@ -144,7 +146,11 @@ import "Array";
                 copy(this.buf, currentBuf);
                 copy(this.buf + currentLen, buf, bufLen);
             } else {
+                // The given buf can be a part of the current buffer, which moves when it is reallocated.
+                def offset: ArchInt = buf~cast[ArchInt] - this.buf~cast[ArchInt];
+                def isOwn: Bool = offset >= 0 and offset <= currentLen * T~size;
                 this._realloc(newLength);
+                if isOwn buf = (this.buf~cast[ArchInt] + offset)~cast[ptr[array[T]]];
                 copy(this.buf + currentLen, buf, bufLen);
             };
             this.buf~cnt(newLength) = 0;
-- 
2.43.0


From 004b85e80f8a070e969d90259f156a4b28e4ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 08/59] fix: appending a StringBuilder's own content keeps it
 valid

---
 Sources/Srt/Srl/StringBuilder.alusus | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 9cd940c..44a3bb7 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -94,8 +94,12 @@ import "Spp/Ast";
                 this.bufferSize = newBufSize;
                 String.copy(this.string.buf, currentBuf);
             } else if newBufSize > this.bufferSize {
+                // The given buf can be a part of the current buffer, which moves when it is reallocated.
+                def offset: ArchInt = buf~cast[ArchInt] - this.string.buf~cast[ArchInt];
+                def isOwn: Bool = offset >= 0 and offset <= this.length;
                 this.string.realloc(newBufSize);
                 this.bufferSize = newBufSize;
+                if isOwn buf = (this.string.buf~cast[ArchInt] + offset)~cast[CharsPtr];
             }
             String.copy(this.string.buf + this.length, buf, bufLen);
             this.string.buf~cnt(newLength) = 0;
-- 
2.43.0


From 2941f354440238be64521ef11ddb88452bf7e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 09/59] fix: appending 64 bit integers with 19 digits stays
 inside the buffer and handles the minimum

---
 Sources/Srt/Srl/String.alusus        | 9 +++++----
 Sources/Srt/Srl/StringBuilder.alusus | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 7d88f4a..7ae7851 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -457,16 +457,17 @@ import "Array";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
             def negative: Bool = 0;
             if i < 0 {
                 negative = 1;
-                i = -i;
             }
-            while minDigits-- > 0 || i > 0 {
+            // Digits are taken from the negative value since the minimum integer has no positive counterpart.
+            if i > 0 i = -i;
+            while minDigits-- > 0 || i < 0 {
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' - i % 10;
                 i /= 10;
             }
             if negative {
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 44a3bb7..d76ab98 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -116,16 +116,17 @@ import "Spp/Ast";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
             def negative: Bool = 0;
             if i < 0 {
                 negative = 1;
-                i = -i;
             }
-            while minDigits-- > 0 || i > 0 {
+            // Digits are taken from the negative value since the minimum integer has no positive counterpart.
+            if i > 0 i = -i;
+            while minDigits-- > 0 || i < 0 {
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' - i % 10;
                 i /= 10;
             }
             if negative {
-- 
2.43.0


From e6ab8b1937ef98df5ec12a3498028c93026b7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 10/59] fix: a float whose fraction rounds up to a whole is
 appended with the next whole

---
 Sources/Srt/Srl/String.alusus        | 12 +++++++++---
 Sources/Srt/Srl/StringBuilder.alusus | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 7ae7851..ab5148b 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -482,10 +482,16 @@ import "Array";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def whole: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - whole) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                // The fraction rounded up to a whole.
+                fractions -= 1000000;
+                ++whole;
+            }
+            this.append(whole);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         @expname[strchr]
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index d76ab98..83440fe 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -141,10 +141,16 @@ import "Spp/Ast";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def whole: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - whole) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                // The fraction rounded up to a whole.
+                fractions -= 1000000;
+                ++whole;
+            }
+            this.append(whole);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         handler this.format(fmt: ptr[array[Char]], args: ...any) {
-- 
2.43.0


From 0833caccbd8e46398a097b6f2f6bda5aa00b679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 11/59] fix: string searches count characters, not bytes, for
 wide characters

---
 Sources/Srt/Srl/String.alusus | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index ab5148b..a5fcfeb 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -203,14 +203,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (buf: ptr[array[T]]): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.find (c: T): ArchInt {
@@ -226,14 +226,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (c: T): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.compare (s: ptr[array[T]]): Int {
@@ -254,7 +254,7 @@ import "Array";
                     str.append(buf);
                     return str;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 str.append(buf, n);
                 str.append(replacement);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
@@ -331,7 +331,7 @@ import "Array";
                     ary.add(str);
                     return ary;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 if n == 0 str = StringBase[T]() else str.assign(buf, n);
                 ary.add(str);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
-- 
2.43.0


From 473c8be4a79f81ebe5fe0759df92f6ef03aa42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 12/59] fix: assigning a SrdRef retains the new object before
 releasing the old one

---
 Sources/Srt/Srl/refs_base.alusus | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/refs_base.alusus b/Sources/Srt/Srl/refs_base.alusus
index 4c35c9d..714330e 100644
--- a/Sources/Srt/Srl/refs_base.alusus
+++ b/Sources/Srt/Srl/refs_base.alusus
@@ -170,11 +170,10 @@ import "Spp";
 
         handler this.assign (c: ref[RefCounter], r: ref[T]) {
             if c~ptr != this.refCounter~ptr {
+                // The new object is retained first because the current object can be its only other owner.
+                if c~ptr != 0 { ++c.count };
                 this.release();
                 this.refCounter~ptr = c~ptr;
-                if this.refCounter~ptr != 0 {
-                    ++this.refCounter.count;
-                };
             }
             this.obj~ptr = r~ptr;
         };
-- 
2.43.0


From cc8c68ca153cb7cf00bb67249db316da35d9c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 13/59] fix: assigning a UnqRef the object it already owns does
 not free it

---
 Sources/Srt/Srl/refs_base.alusus | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/refs_base.alusus b/Sources/Srt/Srl/refs_base.alusus
index 714330e..2be72a6 100644
--- a/Sources/Srt/Srl/refs_base.alusus
+++ b/Sources/Srt/Srl/refs_base.alusus
@@ -303,8 +303,10 @@ import "Spp";
         // Operators
 
         handler this = ptr[T] {
-            this.release();
-            this.obj~ptr = value;
+            if this.obj~ptr != value {
+                this.release();
+                this.obj~ptr = value;
+            }
         };
 
         handler this~cast[ref[T]] return this.obj;
-- 
2.43.0


From 8516e9f76720ccd2acaea89c8baf9c6f1a51a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 14/59] fix: an architecture-width integer is not promoted to
 narrower types, one bit ones included

---
 Sources/Spp/Ast/IntegerType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Spp/Ast/IntegerType.cpp b/Sources/Spp/Ast/IntegerType.cpp
index 6c142a1..3951999 100644
--- a/Sources/Spp/Ast/IntegerType.cpp
+++ b/Sources/Spp/Ast/IntegerType.cpp
@@ -48,6 +48,7 @@ TypeMatchStatus IntegerType::matchTargetType(Type const *type, Helper *helper, T
       Bool targetIsLarger;
       if (targetBitCount == 0 && thisBitCount == 0) targetIsLarger = false;
       else if (targetBitCount == 0 && thisBitCount <= 32) targetIsLarger = true;
+      else if (thisBitCount == 0) targetIsLarger = targetBitCount >= 64;
       else targetIsLarger = targetBitCount > thisBitCount;
 
       if (thisBitCount == targetBitCount && this->isSigned() == integerType->isSigned()) {
-- 
2.43.0


From 98c3e1f55adba583f83be31e1abca273b1b5ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 15/59] fix: globals of one group may be used by each other's
 initializers without a false circularity error

---
 Sources/Spp/CodeGen/Generator.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index 070b21c..afd7ea6 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -1164,8 +1164,13 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     if (!generation->generateFunction(astFunc, session)) result = false;
   }
 
-  // Build global var dependencies.
-  if (session->getGlobalVarInitializationDeps()->getCount() > 0) {
+  // Build global var dependencies. Each var gets its own constructor so that the constructor of a var that is needed
+  // by the initialization of another var of the same group can be placed before it.
+  while (session->getGlobalVarInitializationDeps()->getCount() > 0) {
+    DependencyList<Core::Data::Node> varDeps;
+    varDeps.add(session->getGlobalVarInitializationDeps()->get(0), false);
+    session->getGlobalVarInitializationDeps()->remove(0);
+
     generator->funcNameIndex++;
 
     // Build the constructor function.
@@ -1174,7 +1179,7 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     GlobalCtorDtorInfo ctorInfo;
     ctorInfo.name = ctorNameStream.str().c_str();
     if (generator->buildGlobalCtorOrDtor(
-      session, session->getGlobalVarInitializationDeps(), ctorInfo.name, false,
+      session, &varDeps, ctorInfo.name, false,
       [=,&ctorInfo](
         Spp::Ast::Type *varAstType, TiObject *varTgRef, Core::Data::Node *varAstNode, TiObject *astParams,
         Session *childSession
@@ -1224,7 +1229,11 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     }
   }
 
-  if (session->getGlobalVarDestructionDeps()->getCount() > 0) {
+  while (session->getGlobalVarDestructionDeps()->getCount() > 0) {
+    DependencyList<Core::Data::Node> varDeps;
+    varDeps.add(session->getGlobalVarDestructionDeps()->get(0), false);
+    session->getGlobalVarDestructionDeps()->remove(0);
+
     generator->funcNameIndex++;
 
     // Build the destructor function.
@@ -1233,7 +1242,7 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     GlobalCtorDtorInfo dtorInfo;
     dtorInfo.name = dtorNameStream.str().c_str();
     if (generator->buildGlobalCtorOrDtor(
-      session, session->getGlobalVarDestructionDeps(), dtorInfo.name, true,
+      session, &varDeps, dtorInfo.name, true,
       [=,&dtorInfo](
         Spp::Ast::Type *varAstType, TiObject *varTgRef, Core::Data::Node *varAstNode, TiObject *astParams,
         Session *childSession
-- 
2.43.0


From 62b454a3721f285d385a394d73bcd487692fd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 16/59] fix: validate use statements without following use
 statements of used modules

Modules that use each other, with any further use statement in one of them, sent the validation into an
endless recursion through their bridges.
---
 Sources/Spp/Ast/Helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/Helper.cpp b/Sources/Spp/Ast/Helper.cpp
index 80eee76..1f02a8c 100644
--- a/Sources/Spp/Ast/Helper.cpp
+++ b/Sources/Spp/Ast/Helper.cpp
@@ -886,7 +886,7 @@ Bool Helper::_validateUseStatement(TiObject *self, Core::Data::Ast::Bridge *brid
     throw EXCEPTION(InvalidArgumentException, S("bridge"), S("Use statement has a null target."));
   }
   Bool found = false;
-  helper->getSeeker()->foreach(bridge->getTarget().get(), bridge->getOwner(),
+  helper->getSeeker()->extForeach(bridge->getTarget().get(), bridge->getOwner(),
     [=, &found] (TiInt action, TiObject *obj)->Core::Data::Seeker::Verb
     {
       if (action != Core::Data::Seeker::Action::TARGET_MATCH) return Core::Data::Seeker::Verb::MOVE;
-- 
2.43.0


From 7d5e37d863d8e06754a790a2b15f914fc5376e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 17/59] fix: find macros without following use statements of
 used modules

Any square bracket expression (ptr[Int], for example) in a module that takes part in a cycle of use statements
sent the macro lookup into an endless recursion; the SKIP_OWNERS flag of qualified lookups was ignored as well, so
that M.mac[x] reached macros outside of M.
---
 Sources/Spp/CodeGen/AstProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 908b718..e0658b7 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -165,7 +165,7 @@ Bool AstProcessor::_processParamPass(
     }
 
     Ast::Macro *macro = 0;
-    astProcessor->astHelper->getSeeker()->foreach(operand, owner,
+    astProcessor->astHelper->getSeeker()->extForeach(operand, owner,
       [=, &macro] (TiInt action, TiObject *obj)->Core::Data::Seeker::Verb
       {
         if (action != Core::Data::Seeker::Action::TARGET_MATCH) {
-- 
2.43.0


From 4dbf301b03e472a8c526a1862fa8715b00ef2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:07 +0000
Subject: [PATCH 18/59] fix: tracing an alias does not follow the use
 statements of used modules

An alias defined in, or looked up from, a module that takes part in a cycle of use statements sent the lookup into
an endless recursion and overflowed the stack.
---
 Sources/Spp/Ast/CalleeTracer.cpp | 15 ++++++++++++---
 Sources/Spp/SeekerExtension.cpp  |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/Ast/CalleeTracer.cpp b/Sources/Spp/Ast/CalleeTracer.cpp
index e16217e..95ebef5 100644
--- a/Sources/Spp/Ast/CalleeTracer.cpp
+++ b/Sources/Spp/Ast/CalleeTracer.cpp
@@ -64,8 +64,9 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
   if (request.ref != 0) {
     auto target = request.target;
     Int tracingAlias = 0;
+    Int tracingUse = 0;
     Bool searchingFunctionOwners = false;
-    auto callback = [=, &request, &result, &target, &tracingAlias, &searchingFunctionOwners]
+    auto callback = [=, &request, &result, &target, &tracingAlias, &tracingUse, &searchingFunctionOwners]
       (TiInt action, TiObject *obj)->Core::Data::Seeker::Verb
       {
         if (action == Core::Data::Seeker::Action::ERROR) {
@@ -75,8 +76,14 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
           if (tracingAlias == 0 || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP_GROUP;
           else return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::USE_SCOPES_START) {
-          if (tracingAlias == 0 || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP;
-          else return Core::Data::Seeker::Verb::MOVE;
+          // While tracing an alias we consult the use statements of the scopes we go through, but not the use statements
+          // of the used modules; otherwise we never come back from modules that use each other.
+          if (tracingUse >= tracingAlias || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP;
+          ++tracingUse;
+          return Core::Data::Seeker::Verb::MOVE;
+        } else if (action == Core::Data::Seeker::Action::USE_SCOPES_END) {
+          --tracingUse;
+          return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_START) {
           ++tracingAlias;
           return Core::Data::Seeker::Verb::MOVE;
@@ -149,6 +156,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
     while (target != 0) {
       // Search the requested scope.
       tracingAlias = 0;
+      tracingUse = 0;
       tracer->getSeeker()->foreach(request.ref, target, callback, 0);
 
       // Try the injections if we don't have an exact match yet.
@@ -228,6 +236,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
             if (bridgeTarget == 0) continue;
 
             tracingAlias = 0;
+            tracingUse = 0;
             auto verb = tracer->getSeeker()->foreach(request.ref, bridgeTarget, callback, 0);
             if (!Core::Data::Seeker::isMove(verb)) break;
           }
diff --git a/Sources/Spp/SeekerExtension.cpp b/Sources/Spp/SeekerExtension.cpp
index c7925eb..2ff6d8b 100644
--- a/Sources/Spp/SeekerExtension.cpp
+++ b/Sources/Spp/SeekerExtension.cpp
@@ -126,8 +126,8 @@ Core::Data::Seeker::Verb SeekerExtension::_extForeach(
         } else return Core::Data::Seeker::Verb::MOVE;
       } else if (action == Core::Data::Seeker::Action::USE_SCOPES_START) {
         if (
-          (tracingUse > 0 || (flags & Core::Data::Seeker::Flags::SKIP_USES) != 0) &&
-          (tracingAlias == 0 || (flags & Core::Data::Seeker::Flags::SKIP_USES_FOR_ALIASES) != 0)
+          (tracingUse > tracingAlias || (flags & Core::Data::Seeker::Flags::SKIP_USES) != 0) &&
+          (tracingUse > tracingAlias || tracingAlias == 0 || (flags & Core::Data::Seeker::Flags::SKIP_USES_FOR_ALIASES) != 0)
         ) {
           return Core::Data::Seeker::Verb::SKIP;
         } else {
-- 
2.43.0


From ce897d33afef6f185d9f24da9322d8b85604f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 19/59] fix: an alias in an inner function does not reach the
 outer function's local variables

---
 Sources/Spp/Ast/CalleeTracer.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/Ast/CalleeTracer.cpp b/Sources/Spp/Ast/CalleeTracer.cpp
index 95ebef5..2b1a468 100644
--- a/Sources/Spp/Ast/CalleeTracer.cpp
+++ b/Sources/Spp/Ast/CalleeTracer.cpp
@@ -66,7 +66,13 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
     Int tracingAlias = 0;
     Int tracingUse = 0;
     Bool searchingFunctionOwners = false;
-    auto callback = [=, &request, &result, &target, &tracingAlias, &tracingUse, &searchingFunctionOwners]
+    // These two are for the owners we go through while tracing an alias.
+    Bool aliasOwnerIsFunction = false;
+    Bool aliasOutOfFunction = false;
+    auto callback = [
+      =, &request, &result, &target, &tracingAlias, &tracingUse, &searchingFunctionOwners, &aliasOwnerIsFunction,
+      &aliasOutOfFunction
+    ]
       (TiInt action, TiObject *obj)->Core::Data::Seeker::Verb
       {
         if (action == Core::Data::Seeker::Action::ERROR) {
@@ -74,7 +80,9 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::OWNER_SCOPE) {
           if (tracingAlias == 0 || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP_GROUP;
-          else return Core::Data::Seeker::Verb::MOVE;
+          if (aliasOwnerIsFunction) aliasOutOfFunction = true;
+          aliasOwnerIsFunction = ti_cast<Ast::Function>(obj) != 0;
+          return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::USE_SCOPES_START) {
           // While tracing an alias we consult the use statements of the scopes we go through, but not the use statements
           // of the used modules; otherwise we never come back from modules that use each other.
@@ -86,9 +94,12 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_START) {
           ++tracingAlias;
+          aliasOwnerIsFunction = false;
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_END) {
           --tracingAlias;
+          if (tracingAlias == 0) aliasOutOfFunction = false;
+          aliasOwnerIsFunction = false;
           return Core::Data::Seeker::Verb::MOVE;
         }
 
@@ -96,7 +107,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
           auto domain = tracer->helper->getVariableDomain(obj);
           
           // If we are going out of the current function then we should only be able to access global variables.
-          if (domain == Ast::DefinitionDomain::FUNCTION && searchingFunctionOwners) {
+          if (domain == Ast::DefinitionDomain::FUNCTION && (searchingFunctionOwners || aliasOutOfFunction)) {
             result.notice = newSrdObj<Spp::Notices::AccessingLocalVarInOtherFuncNotice>(
               Core::Data::Ast::findSourceLocation(request.astNode)
             );
-- 
2.43.0


From fc2cc320f9955b2a3dc97b0cccb2823f5d8f64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 20/59] fix: while tracing aliases follow the use statements of
 each traced scope but not those of used modules

---
 Sources/Spp/Ast/CalleeTracer.cpp | 14 ++++++++------
 Sources/Spp/SeekerExtension.cpp  | 14 +++++++++-----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/Sources/Spp/Ast/CalleeTracer.cpp b/Sources/Spp/Ast/CalleeTracer.cpp
index 2b1a468..ca0c0cf 100644
--- a/Sources/Spp/Ast/CalleeTracer.cpp
+++ b/Sources/Spp/Ast/CalleeTracer.cpp
@@ -64,7 +64,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
   if (request.ref != 0) {
     auto target = request.target;
     Int tracingAlias = 0;
-    Int tracingUse = 0;
+    std::vector<Bool> tracingUse(1, false); // One entry for each alias being traced.
     Bool searchingFunctionOwners = false;
     // These two are for the owners we go through while tracing an alias.
     Bool aliasOwnerIsFunction = false;
@@ -86,18 +86,20 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
         } else if (action == Core::Data::Seeker::Action::USE_SCOPES_START) {
           // While tracing an alias we consult the use statements of the scopes we go through, but not the use statements
           // of the used modules; otherwise we never come back from modules that use each other.
-          if (tracingUse >= tracingAlias || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP;
-          ++tracingUse;
+          if (tracingAlias == 0 || tracingUse.back() || result.isNameMatched()) return Core::Data::Seeker::Verb::SKIP;
+          tracingUse.back() = true;
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::USE_SCOPES_END) {
-          --tracingUse;
+          tracingUse.back() = false;
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_START) {
           ++tracingAlias;
+          tracingUse.push_back(false);
           aliasOwnerIsFunction = false;
           return Core::Data::Seeker::Verb::MOVE;
         } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_END) {
           --tracingAlias;
+          tracingUse.pop_back();
           if (tracingAlias == 0) aliasOutOfFunction = false;
           aliasOwnerIsFunction = false;
           return Core::Data::Seeker::Verb::MOVE;
@@ -167,7 +169,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
     while (target != 0) {
       // Search the requested scope.
       tracingAlias = 0;
-      tracingUse = 0;
+      tracingUse.assign(1, false);
       tracer->getSeeker()->foreach(request.ref, target, callback, 0);
 
       // Try the injections if we don't have an exact match yet.
@@ -247,7 +249,7 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
             if (bridgeTarget == 0) continue;
 
             tracingAlias = 0;
-            tracingUse = 0;
+            tracingUse.assign(1, false);
             auto verb = tracer->getSeeker()->foreach(request.ref, bridgeTarget, callback, 0);
             if (!Core::Data::Seeker::isMove(verb)) break;
           }
diff --git a/Sources/Spp/SeekerExtension.cpp b/Sources/Spp/SeekerExtension.cpp
index 2ff6d8b..ae9bedb 100644
--- a/Sources/Spp/SeekerExtension.cpp
+++ b/Sources/Spp/SeekerExtension.cpp
@@ -111,14 +111,16 @@ Core::Data::Seeker::Verb SeekerExtension::_extForeach(
 ) {
   PREPARE_SELF(seeker, Core::Data::Seeker);
   Int tracingAlias = 0;
-  Int tracingUse = 0;
+  std::vector<Bool> tracingUse(1, false); // One entry for each alias being traced.
   return seeker->foreach(ref, target,
     [flags, cb, &tracingAlias, &tracingUse](TiInt action, TiObject *o)->Core::Data::Seeker::Verb {
       if (action == Core::Data::Seeker::Action::ALIAS_TRACE_START) {
         ++tracingAlias;
+        tracingUse.push_back(false);
         return Core::Data::Seeker::Verb::MOVE;
       } else if (action == Core::Data::Seeker::Action::ALIAS_TRACE_END) {
         --tracingAlias;
+        tracingUse.pop_back();
         return Core::Data::Seeker::Verb::MOVE;
       } else if (action == Core::Data::Seeker::Action::OWNER_SCOPE) {
         if (tracingAlias == 0 && (flags & Core::Data::Seeker::Flags::SKIP_OWNERS) != 0) {
@@ -126,16 +128,18 @@ Core::Data::Seeker::Verb SeekerExtension::_extForeach(
         } else return Core::Data::Seeker::Verb::MOVE;
       } else if (action == Core::Data::Seeker::Action::USE_SCOPES_START) {
         if (
-          (tracingUse > tracingAlias || (flags & Core::Data::Seeker::Flags::SKIP_USES) != 0) &&
-          (tracingUse > tracingAlias || tracingAlias == 0 || (flags & Core::Data::Seeker::Flags::SKIP_USES_FOR_ALIASES) != 0)
+          tracingUse.back() || (
+            (flags & Core::Data::Seeker::Flags::SKIP_USES) != 0 &&
+            (tracingAlias == 0 || (flags & Core::Data::Seeker::Flags::SKIP_USES_FOR_ALIASES) != 0)
+          )
         ) {
           return Core::Data::Seeker::Verb::SKIP;
         } else {
-          ++tracingUse;
+          tracingUse.back() = true;
           return Core::Data::Seeker::Verb::MOVE;
         }
       } else if (action == Core::Data::Seeker::Action::USE_SCOPES_END) {
-        --tracingUse;
+        tracingUse.back() = false;
         return Core::Data::Seeker::Verb::MOVE;
       } else if (action == SeekerExtension::Action::CHILD_SCOPE) {
         if ((flags & SeekerExtension::Flags::SKIP_CHILDREN) != 0) return Core::Data::Seeker::Verb::SKIP;
-- 
2.43.0


From 01f0f0eba9f232117cfb205ef08bfbd2eba42017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 21/59] fix: candidates of equal rank are ambiguous whatever
 dereferencing their arguments need

---
 Sources/Spp/Ast/CalleeTracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/CalleeTracer.cpp b/Sources/Spp/Ast/CalleeTracer.cpp
index ca0c0cf..efe4a0c 100644
--- a/Sources/Spp/Ast/CalleeTracer.cpp
+++ b/Sources/Spp/Ast/CalleeTracer.cpp
@@ -832,7 +832,7 @@ void CalleeTracer::selectBetterResult(CalleeLookupResult const &newResult, Calle
     if (newResult.matchStatus > result.matchStatus) {
       // Better result is found.
       result = newResult;
-    } else if (newResult.matchStatus == result.matchStatus) {
+    } else if (newResult.matchStatus.rank == result.matchStatus.rank) {
       if (newResult.injectionLevel < result.injectionLevel) {
         result = newResult;
       } else if (newResult.injectionLevel == result.injectionLevel) {
-- 
2.43.0


From d367f98f326da5b38bf8589c930514e5d7c03b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 22/59] fix: passing an aggregate as a temp_ref of its first
 member ranks above conversions

---
 Sources/Spp/Ast/Helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/Helper.cpp b/Sources/Spp/Ast/Helper.cpp
index 1f02a8c..85b5ee4 100644
--- a/Sources/Spp/Ast/Helper.cpp
+++ b/Sources/Spp/Ast/Helper.cpp
@@ -364,7 +364,7 @@ TypeMatchStatus Helper::_matchTargetType(
   auto matchType = srcType->matchTargetType(targetType, helper);
   if (negativeDeref && (matchType == TypeMatchStatus::AGGREGATION || matchType >= TypeMatchStatus::REF_AGGREGATION)) {
     --matchType.derefs;
-    if (matchType == TypeMatchStatus::AGGREGATION) matchType.value = TypeMatchStatus::REF_AGGREGATION;
+    if (matchType == TypeMatchStatus::AGGREGATION) matchType = TypeMatchStatus::REF_AGGREGATION;
     return matchType;
   } else if (!negativeDeref && matchType >= TypeMatchStatus::IMPLICIT_CAST) {
     return matchType;
-- 
2.43.0


From e8d6a65e27c6340297dfa8c0a51d3dc638220e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 23/59] fix: a custom cast is chosen for a temp_ref parameter
 only if its result can be passed by reference

---
 Sources/Spp/Ast/Helper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/Ast/Helper.cpp b/Sources/Spp/Ast/Helper.cpp
index 85b5ee4..1e0041d 100644
--- a/Sources/Spp/Ast/Helper.cpp
+++ b/Sources/Spp/Ast/Helper.cpp
@@ -352,8 +352,10 @@ TypeMatchStatus Helper::_matchTargetType(
   // If the target type is a temp_ref then we'll cast to the content type instead of the ref type, and then update
   // derefs accordingly if we found a match. This is because even if we have a value rather than a reference the
   // casting is still possible since this is a temp ref and we can create a temp var to convert values into
-  // references.
+  // references. Custom casters are still matched against the temp_ref itself since their result needs to be passed as a
+  // reference without further conversion.
   Bool negativeDeref = false;
+  auto casterTargetType = targetType;
   if (
     targetType->isDerivedFrom<ReferenceType>() &&
     static_cast<ReferenceType*>(targetType)->getMode() == Ast::ReferenceMode::TEMP_EXPLICIT
@@ -371,14 +373,14 @@ TypeMatchStatus Helper::_matchTargetType(
   } else {
     if (!srcType->isDerivedFrom<ReferenceType>()) {
       auto srcReferenceType = helper->getReferenceTypeFor(srcType, Ast::ReferenceMode::TEMP_EXPLICIT);
-      auto customMatchType = helper->lookupCustomCaster(srcReferenceType, targetType, caster);
+      auto customMatchType = helper->lookupCustomCaster(srcReferenceType, casterTargetType, caster);
       if (customMatchType >= TypeMatchStatus::IMPLICIT_CAST) {
         return TypeMatchStatus(customMatchType, TypeMatchStatus::CUSTOM_CASTER, -1);
       }
     }
     Int deref = 0;
     while (srcType->isDerivedFrom<ReferenceType>() && static_cast<ReferenceType*>(srcType)->isAutoDeref()) {
-      auto customMatchType = helper->lookupCustomCaster(srcType, targetType, caster);
+      auto customMatchType = helper->lookupCustomCaster(srcType, casterTargetType, caster);
       if (customMatchType>=TypeMatchStatus::CUSTOM_CASTER) {
         return TypeMatchStatus(customMatchType, TypeMatchStatus::CUSTOM_CASTER, deref);
       }
-- 
2.43.0


From ce574ad27514367fc99f98c1fd3b728df91ca200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 24/59] fix: an ambiguous match inside an injection does not
 compete with a direct match of the same rank

---
 Sources/Spp/Ast/CalleeTracer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/CalleeTracer.cpp b/Sources/Spp/Ast/CalleeTracer.cpp
index efe4a0c..aa406de 100644
--- a/Sources/Spp/Ast/CalleeTracer.cpp
+++ b/Sources/Spp/Ast/CalleeTracer.cpp
@@ -216,8 +216,9 @@ void CalleeTracer::_lookupCallee(TiObject *self, CalleeLookupRequest &request, C
             if (innerResult.isSuccessful()) {
               if (!noBindDef) innerResult.pushThisMarker();
               innerResult.pushObject(def->getTarget().get());
-              ++innerResult.injectionLevel;
             }
+            // An ambiguous match inside the injection is still a match of a higher injection level.
+            ++innerResult.injectionLevel;
             CalleeTracer::selectBetterResult(innerResult, result);
             // No need to keep looking if we already found an exact match.
             if (result.matchStatus == TypeMatchStatus::EXACT) break;
-- 
2.43.0


From 395cd3c4acb70e370c00339c7f828a7299f22729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 25/59] fix: classes castable to each other do not send
 overload resolution in circles

---
 Sources/Spp/Ast/Helper.cpp | 7 +++++++
 Sources/Spp/Ast/Helper.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/Sources/Spp/Ast/Helper.cpp b/Sources/Spp/Ast/Helper.cpp
index 1e0041d..3242bd9 100644
--- a/Sources/Spp/Ast/Helper.cpp
+++ b/Sources/Spp/Ast/Helper.cpp
@@ -149,6 +149,12 @@ TypeMatchStatus Helper::_lookupCustomCaster(
   if (srcRefType != 0) {
     auto srcContentType = ti_cast<DataType>(srcRefType->getContentType(helper));
     if (srcContentType != 0 && srcContentType->getBody() != 0) {
+      // Types can be castable to each other, so casting the result of a caster should not lead back to the same type.
+      auto &castedTypes = helper->customCastedTypes;
+      if (std::find(castedTypes.begin(), castedTypes.end(), srcContentType) != castedTypes.end()) {
+        return TypeMatchStatus::NONE;
+      }
+      castedTypes.push_back(srcContentType);
       PlainList<TiObject> argTypes({ srcRefType });
       static Core::Data::Ast::Identifier ref({{S("value"), TiStr(S("~cast"))}});
       TypeMatchStatus retMatch;
@@ -178,6 +184,7 @@ TypeMatchStatus Helper::_lookupCustomCaster(
         },
         Core::Data::Seeker::Flags::SKIP_OWNERS | Core::Data::Seeker::Flags::SKIP_USES
       );
+      castedTypes.pop_back();
       return retMatch;
     }
   }
diff --git a/Sources/Spp/Ast/Helper.h b/Sources/Spp/Ast/Helper.h
index 03b08e0..232b7d9 100644
--- a/Sources/Spp/Ast/Helper.h
+++ b/Sources/Spp/Ast/Helper.h
@@ -33,6 +33,9 @@ class Helper : public TiObject, public DynamicBinding, public DynamicInterfacing
   private: Core::Main::RootManager *rootManager;
   private: NodePathResolver *nodePathResolver;
 
+  /// The types whose custom casters are currently being looked up, to avoid casting in circles.
+  private: std::vector<DataType*> customCastedTypes;
+
   private: Template *refTemplate = 0;
   private: Template *trefTemplate = 0;
   private: Template *irefTemplate = 0;
-- 
2.43.0


From c05c3591745d0a39c6e267aa09eeee27e6134233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 26/59] fix: using a class whose fields failed to generate no
 longer ends the compiler or reports bogus circular generation

---
 Sources/Spp/CodeGen/TypeGenerator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/CodeGen/TypeGenerator.cpp b/Sources/Spp/CodeGen/TypeGenerator.cpp
index 5035ca3..e804cfb 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.cpp
+++ b/Sources/Spp/CodeGen/TypeGenerator.cpp
@@ -293,7 +293,10 @@ Bool TypeGenerator::_generateUserType(TiObject *self, Spp::Ast::UserType *astTyp
   TioSharedPtr tgType;
   if (!session->getTg()->generateStructTypeDecl(name.c_str(), tgType)) return false;
   session->getEda()->setCodeGenData(astType, tgType);
-  if (!typeGenerator->generateUserTypeMemberVars(astType, g, session)) return false;
+  if (!typeGenerator->generateUserTypeMemberVars(astType, g, session)) {
+    session->getEda()->setCodeGenFailed(astType, true);
+    return false;
+  }
   return true;
 }
 
@@ -380,14 +383,16 @@ Bool TypeGenerator::_generateUserTypeMemberVars(
   // end up with a struct that has no body, which can cause exceptions later on during other operations.
   if (!session->getTg()->generateStructTypeBody(tgType, &tgMemberTypes, &tgMembers)) return false;
 
-  if (!result) return false;
-
+  // Likewise, the members that succeeded need their data since later statements can still use the type.
   if (tgMemberTypes.getElementCount() != tgMembers.getCount()) {
     throw EXCEPTION(GenericException, S("Unexpected error while generating struct body."));
   }
   for (Int i = 0; i < tgMemberTypes.getElementCount(); ++i) {
     session->getEda()->setCodeGenData(members.get(i), tgMembers.get(i));
   }
+
+  if (!result) return false;
+
   inProgress->set(false);
 
   return true;
@@ -404,6 +409,9 @@ Bool TypeGenerator::_generateUserTypeAutoConstructor(
   // Validate that the type has custom initialization.
   if ((astType->getInitializationMethod(typeGenerator->astHelper) & Ast::TypeInitMethod::AUTO) == 0) return true;
 
+  // If the generation of the type's members has failed then they cannot be initialized.
+  if (session->getEda()->didCodeGenFail(astType)) return false;
+
   auto body = astType->getBody().get();
 
   auto existingBuildId = session->getEda()->tryGetBuildId<TiInt>(body);
@@ -516,6 +524,9 @@ Bool TypeGenerator::_generateUserTypeAutoDestructor(
   // Validate that the type has custom initialization.
   if ((astType->getDestructionMethod(typeGenerator->astHelper) & Ast::TypeInitMethod::AUTO) == 0) return true;
 
+  // If the generation of the type's members has failed then they cannot be destructed.
+  if (session->getEda()->didCodeGenFail(astType)) return false;
+
   auto body = astType->getBody().get();
 
   auto existingBuildId = session->getEda()->tryGetBuildId<TiInt>(body);
-- 
2.43.0


From 97a8766f9d2c53f13712f7761ede76e754d8bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 27/59] fix: template instances with different string arguments
 never share a path, hence globals

---
 Sources/Spp/Ast/NodePathResolver.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/NodePathResolver.cpp b/Sources/Spp/Ast/NodePathResolver.cpp
index d12f970..2eab558 100644
--- a/Sources/Spp/Ast/NodePathResolver.cpp
+++ b/Sources/Spp/Ast/NodePathResolver.cpp
@@ -157,7 +157,17 @@ void NodePathResolver::_resolveTemplateInstance(
       if (str == 0) {
         throw EXCEPTION(GenericException, S("Invalid template argument."));
       }
-      path << str->getValue().get();
+      auto value = str->getValue().get();
+      if (std::strpbrk(value, S(",[]\"\\")) == 0) path << value;
+      else {
+        // Quote the value, otherwise instances with different arguments could end up with the same path.
+        path << C('"');
+        for (; *value != C('\0'); ++value) {
+          if (*value == C('"') || *value == C('\\')) path << C('\\');
+          path << *value;
+        }
+        path << C('"');
+      }
     } else {
       path << resolver->doResolve(ti_cast<Core::Data::Node>(obj), helper);
     }
-- 
2.43.0


From 92830fe3324bfd5c4940a2f21888c01a1d0841bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 28/59] fix: integer literals with a base prefix keep their
 value as template arguments, sizes and steps

---
 Sources/Core/Data/Ast/ast.cpp               | 41 +++++++++++++++++++++
 Sources/Core/Data/Ast/ast.h                 |  9 +++++
 Sources/Spp/Ast/ArrayType.cpp               |  2 +-
 Sources/Spp/Ast/FloatType.cpp               |  2 +-
 Sources/Spp/Ast/IntegerType.cpp             |  2 +-
 Sources/Spp/Ast/Template.cpp                |  2 +-
 Sources/Spp/CodeGen/CommandGenerator.cpp    |  4 +-
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 36 +-----------------
 Sources/Spp/Grammar/tools.cpp               | 10 +++--
 Sources/Spp/Handlers/handlers.cpp           |  2 +-
 10 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/Sources/Core/Data/Ast/ast.cpp b/Sources/Core/Data/Ast/ast.cpp
index 2d02940..df77389 100644
--- a/Sources/Core/Data/Ast/ast.cpp
+++ b/Sources/Core/Data/Ast/ast.cpp
@@ -231,6 +231,47 @@ TioSharedPtr _clone(TiObject *obj, SourceLocation *sl)
 }
 
 
+LongWord parseIntegerLiteral(Char const *&src)
+{
+  Int base = 10;
+  if (compareStr(src, S("0b"), 2) == 0 || compareStr(src, S("0B"), 2) == 0) {
+    base = 2;
+    src += 2;
+  } else if (compareStr(src, S("0ن"), 3) == 0) {
+    base = 2;
+    src += 3;
+  } else if (compareStr(src, S("0o"), 2) == 0 || compareStr(src, S("0O"), 2) == 0) {
+    base = 8;
+    src += 2;
+  } else if (compareStr(src, S("0م"), 3) == 0) {
+    base = 8;
+    src += 3;
+  } else if (
+    compareStr(src, S("0h"), 2) == 0 || compareStr(src, S("0H"), 2) == 0 ||
+    compareStr(src, S("0x"), 2) == 0 || compareStr(src, S("0X"), 2) == 0
+  ) {
+    base = 16;
+    src += 2;
+  }
+  LongWord value = 0;
+  while (
+    (*src >= C('0') && *src <= C('9')) ||
+    (*src >= C('a') && *src <= C('f')) ||
+    (*src >= C('A') && *src <= C('F'))
+  ) {
+    Int digit = 0;
+    if (*src >= C('0') && *src <= C('9')) digit = *src - C('0');
+    else if (*src >= C('a') && *src <= C('f')) digit = *src - C('a') + 10;
+    else if (*src >= C('A') && *src <= C('F')) digit = *src - C('A') + 10;
+    ASSERT(digit < base);
+    value *= base;
+    value += digit;
+    ++src;
+  }
+  return value;
+}
+
+
 Bool isEqual(TiObject *obj1, TiObject *obj2)
 {
   if (obj1 == 0 && obj2 == 0) return true;
diff --git a/Sources/Core/Data/Ast/ast.h b/Sources/Core/Data/Ast/ast.h
index 6520157..c68c021 100644
--- a/Sources/Core/Data/Ast/ast.h
+++ b/Sources/Core/Data/Ast/ast.h
@@ -154,6 +154,15 @@ DEFINE_AST_TEXT_ELEMENT(FloatLiteral);
 DEFINE_AST_TEXT_ELEMENT(CharLiteral);
 DEFINE_AST_TEXT_ELEMENT(StringLiteral);
 
+/// Parse the digits of an integer literal, taking its base prefix into consideration, and move the pointer past them.
+LongWord parseIntegerLiteral(Char const *&src);
+
+inline LongWord getIntegerLiteralValue(IntegerLiteral const *literal)
+{
+  Char const *src = literal->getValue().get();
+  return parseIntegerLiteral(src);
+}
+
 } // namespace
 
 #endif
diff --git a/Sources/Spp/Ast/ArrayType.cpp b/Sources/Spp/Ast/ArrayType.cpp
index 67c74f9..dc0cc63 100644
--- a/Sources/Spp/Ast/ArrayType.cpp
+++ b/Sources/Spp/Ast/ArrayType.cpp
@@ -48,7 +48,7 @@ Word ArrayType::getSize(Helper *helper) const
   if (size == 0) {
     throw EXCEPTION(GenericException, S("Could not find size value."));
   }
-  return std::stol(size->getValue().get());
+  return Core::Data::Ast::getIntegerLiteralValue(size);
 }
 
 
diff --git a/Sources/Spp/Ast/FloatType.cpp b/Sources/Spp/Ast/FloatType.cpp
index fdac55c..f5c0ce2 100644
--- a/Sources/Spp/Ast/FloatType.cpp
+++ b/Sources/Spp/Ast/FloatType.cpp
@@ -30,7 +30,7 @@ Word FloatType::getBitCount(Helper *helper) const
   if (bitCount == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCount->getValue().get());
+  return Core::Data::Ast::getIntegerLiteralValue(bitCount);
 }
 
 
diff --git a/Sources/Spp/Ast/IntegerType.cpp b/Sources/Spp/Ast/IntegerType.cpp
index 3951999..6fcae11 100644
--- a/Sources/Spp/Ast/IntegerType.cpp
+++ b/Sources/Spp/Ast/IntegerType.cpp
@@ -32,7 +32,7 @@ Word IntegerType::getBitCount(Helper *helper) const
   if (bitCountText == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCountText->getValue().get());
+  return Core::Data::Ast::getIntegerLiteralValue(bitCountText);
 }
 
 
diff --git a/Sources/Spp/Ast/Template.cpp b/Sources/Spp/Ast/Template.cpp
index 1a3e614..a9aacdf 100644
--- a/Sources/Spp/Ast/Template.cpp
+++ b/Sources/Spp/Ast/Template.cpp
@@ -150,7 +150,7 @@ Bool Template::matchTemplateVar(
       }
       auto newVar = static_cast<Core::Data::Ast::IntegerLiteral*>(templateInput);
       ASSERT(newVar != 0);
-      return std::stol(newVar->getValue().get()) == std::stol(var->getValue().get());
+      return Core::Data::Ast::getIntegerLiteralValue(newVar) == Core::Data::Ast::getIntegerLiteralValue(var);
     }
 
     case TemplateVarType::STRING: {
diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 3bb72d3..1222b28 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -281,7 +281,7 @@ Bool CommandGenerator::_generateContinueStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1 : (Int)Core::Data::Ast::getIntegerLiteralValue(stepsNode);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
@@ -329,7 +329,7 @@ Bool CommandGenerator::_generateBreakStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1 : (Int)Core::Data::Ast::getIntegerLiteralValue(stepsNode);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index eaca817..84ef04a 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -2277,41 +2277,7 @@ Bool ExpressionGenerator::_generateIntegerLiteral(
   // TODO: Implement unsigned integers.
 
   // Parse the given value.
-  Int base = 10;
-  if (compareStr(src, S("0b"), 2) == 0 || compareStr(src, S("0B"), 2) == 0) {
-    base = 2;
-    src += 2;
-  } else if (compareStr(src, S("0ن"), 3) == 0) {
-    base = 2;
-    src += 3;
-  } else if (compareStr(src, S("0o"), 2) == 0 || compareStr(src, S("0O"), 2) == 0) {
-    base = 8;
-    src += 2;
-  } else if (compareStr(src, S("0م"), 3) == 0) {
-    base = 8;
-    src += 3;
-  } else if (
-    compareStr(src, S("0h"), 2) == 0 || compareStr(src, S("0H"), 2) == 0 ||
-    compareStr(src, S("0x"), 2) == 0 || compareStr(src, S("0X"), 2) == 0
-  ) {
-    base = 16;
-    src += 2;
-  }
-  LongWord value = 0;
-  while (
-    (*src >= C('0') && *src <= C('9')) ||
-    (*src >= C('a') && *src <= C('f')) ||
-    (*src >= C('A') && *src <= C('F'))
-  ) {
-    Int digit = 0;
-    if (*src >= C('0') && *src <= C('9')) digit = *src - C('0');
-    else if (*src >= C('a') && *src <= C('f')) digit = *src - C('a') + 10;
-    else if (*src >= C('A') && *src <= C('F')) digit = *src - C('A') + 10;
-    ASSERT(digit < base);
-    value *= base;
-    value += digit;
-    ++src;
-  }
+  LongWord value = Core::Data::Ast::parseIntegerLiteral(src);
 
   // Is it a signed number?
   Bool signedNum = true;
diff --git a/Sources/Spp/Grammar/tools.cpp b/Sources/Spp/Grammar/tools.cpp
index 964560e..2132411 100644
--- a/Sources/Spp/Grammar/tools.cpp
+++ b/Sources/Spp/Grammar/tools.cpp
@@ -125,7 +125,7 @@ Bool parseMinMax(
   resultAst = mulOp->getFirst().get();
   auto intLiteral = mulOp->getSecond().ti_cast_get<Core::Data::Ast::IntegerLiteral>();
   if (intLiteral != 0) {
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)Core::Data::Ast::getIntegerLiteralValue(intLiteral);
     min = newSrdObj<TiInt>(num);
     max = newSrdObj<TiInt>(num);
     return true;
@@ -153,7 +153,7 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)Core::Data::Ast::getIntegerLiteralValue(intLiteral);
     min = newSrdObj<TiInt>(num);
   }
   auto second = list->get(1).get();
@@ -165,7 +165,7 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)Core::Data::Ast::getIntegerLiteralValue(intLiteral);
     max = newSrdObj<TiInt>(num);
   }
   return true;
@@ -314,7 +314,9 @@ Bool parseValueAst(TiObject *valueAst, Core::Notices::Store *noticeStore, TioSha
     result = PARSE_REF(qualifier);
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
-    result = TiInt::create(std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)->getValue().get()));
+    result = TiInt::create((Int)Core::Data::Ast::getIntegerLiteralValue(
+      static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)
+    ));
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
     result = TiStr::create(static_cast<Core::Data::Ast::StringLiteral*>(valueAst)->getValue());
diff --git a/Sources/Spp/Handlers/handlers.cpp b/Sources/Spp/Handlers/handlers.cpp
index 160ae02..0f7bc23 100644
--- a/Sources/Spp/Handlers/handlers.cpp
+++ b/Sources/Spp/Handlers/handlers.cpp
@@ -105,7 +105,7 @@ Bool parseNumber(
 ) {
   auto metadata = ti_cast<Core::Data::Ast::MetaHaving>(ast);
   if (ast->isA<Core::Data::Ast::IntegerLiteral>()) {
-    result = std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(ast)->getValue().get());
+    result = Core::Data::Ast::getIntegerLiteralValue(static_cast<Core::Data::Ast::IntegerLiteral*>(ast));
     return true;
   } else {
     if (metadata) {
-- 
2.43.0


From a4294939b001dc3e7487900661c590b3766fee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 29/59] fix: macros with function parameters named by macro
 arguments can be used more than once and at any position

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 46 ++++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index e0658b7..b873c85 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -749,8 +749,11 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
   Core::Data::SourceLocation *sl, DynamicMapContaining<TiObject> *destObj
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
+
+  // Generate the new keys.
+  Array<Str> newKeys;
+  Array<Int> keyArgs;
   for (Int i = 0; i < obj->getElementCount(); ++i) {
-    // Generate the new key value.
     Char key[1000];
     Char newKey[1000];
     Word prefixSize = 0;
@@ -759,30 +762,39 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
     auto index = argNames->findPos(Str(true, key));
     if (index != -1) {
       // The key can be replaced with the new key.
-      auto arg = ti_cast<Core::Data::Ast::Identifier>(args->getElement(index));
-      if (arg != 0) {
-        astProcessor->generateStringFromTemplate(
-          obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix, newKey, 1000
-        );
-        // Make sure the new key isn't already used.
-        if (obj->findElementIndex(newKey) != -1) {
-          astProcessor->astHelper->getNoticeStore()->add(
-            newSrdObj<Spp::Notices::InvalidMacroArgNotice>(arg->findSourceLocation())
-          );
-          return false;
-        }
-        auto value = obj->getElement(index);
-        obj->insertElement(index, newKey, value);
-        obj->removeElement(index + 1);
+      auto arg = args->getElement(index);
+      Char const *text;
+      if (arg->isDerivedFrom<Core::Data::Ast::Identifier>()) {
+        text = static_cast<Core::Data::Ast::Text*>(arg)->getValue().get();
+      } else if (arg->isDerivedFrom<TiStr>()) {
+        text = static_cast<TiStr*>(arg)->get();
       } else {
+        auto elementSl = Core::Data::Ast::findSourceLocation(arg);
         astProcessor->astHelper->getNoticeStore()->add(
-          newSrdObj<Spp::Notices::InvalidMacroArgNotice>(Core::Data::Ast::findSourceLocation(arg))
+          newSrdObj<Spp::Notices::InvalidMacroArgNotice>(elementSl == 0 ? getSharedPtr(sl) : elementSl)
         );
         return false;
       }
+      astProcessor->generateStringFromTemplate(obj->getElementKey(i), prefixSize, text, suffix, newKey, 1000);
     } else {
       copyStr(obj->getElementKey(i), newKey);
     }
+    // Make sure the new key isn't already used.
+    auto usedIndex = newKeys.findPos(Str(true, newKey));
+    if (usedIndex != -1) {
+      auto arg = args->getElement(index != -1 ? index : keyArgs(usedIndex));
+      auto elementSl = Core::Data::Ast::findSourceLocation(arg);
+      astProcessor->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidMacroArgNotice>(elementSl == 0 ? getSharedPtr(sl) : elementSl)
+      );
+      return false;
+    }
+    newKeys.add(Str(newKey));
+    keyArgs.add(index);
+  }
+
+  for (Int i = 0; i < obj->getElementCount(); ++i) {
+    Char const *newKey = newKeys(i).getBuf();
     // Generate the value.
     if (obj->getElementHoldMode(i) == HoldMode::SHARED_REF) {
       TioSharedPtr newChild;
-- 
2.43.0


From d551526c8cb1a59df134b2b994f4fa6151f70743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 30/59] fix: string and char literals whose text equals a macro
 parameter's name are not replaced by its argument

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 54 ++++++++++++++--------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index b873c85..bae671a 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -443,6 +443,12 @@ Bool AstProcessor::_interpolateAst(
     return astProcessor->interpolateAst_stringLiteral(stringLiteral, argNames, args, sl, result);
   }
 
+  if (obj->isDerivedFrom<Core::Data::Ast::CharLiteral>()) {
+    // The text of a char literal doesn't refer to an argument.
+    result = Core::Data::Ast::clone(obj, sl);
+    return true;
+  }
+
   if (obj->isDerivedFrom<TiStr>()) {
     auto str = static_cast<TiStr*>(obj);
     return astProcessor->interpolateAst_tiStr(str, argNames, args, sl, result);
@@ -527,36 +533,32 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
   Word prefixSize = 0;
   Char const *suffix = 0;
   astProcessor->parseStringTemplate(obj->getValue().get(), var, 1000, prefixSize, suffix, S("{{"), S("}}"));
-  auto index = argNames->findPos(Str(true, var));
+  // Only a variable part enclosed in double curly brackets is replaced; the text itself doesn't refer to an argument.
+  auto index = suffix == 0 ? -1 : argNames->findPos(Str(true, var));
   if (index != -1) {
     auto arg = args->getElement(index);
-    if (prefixSize != 0 || suffix != 0) {
-      // We have an identifier string template, so we need the matching arg to be an identifier as well.
-      Char const *text;
-      if (arg->isDerivedFrom<Core::Data::Ast::Identifier>() || arg->isDerivedFrom<Core::Data::Ast::StringLiteral>()) {
-        text = static_cast<Core::Data::Ast::Text*>(arg)->getValue().get();
-      } else if (arg->isDerivedFrom<TiStr>()) {
-        text = static_cast<TiStr*>(arg)->get();
-      } else {
-        auto elementSl = Core::Data::Ast::findSourceLocation(arg);
-        astProcessor->astHelper->getNoticeStore()->add(
-          newSrdObj<Spp::Notices::InvalidMacroArgNotice>(elementSl == 0 ? getSharedPtr(sl) : elementSl)
-        );
-        return false;
-      }
-      Char newVar[1000];
-      astProcessor->generateStringFromTemplate(
-        obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
-      );
-      result = Core::Data::Ast::StringLiteral::create({
-        { S("value"), TiStr(newVar) },
-        { S("sourceLocation"), obj->getSourceLocation() }
-      });
-      Core::Data::Ast::addSourceLocation(result.get(), sl);
+    // We have an identifier string template, so we need the matching arg to be an identifier as well.
+    Char const *text;
+    if (arg->isDerivedFrom<Core::Data::Ast::Identifier>() || arg->isDerivedFrom<Core::Data::Ast::StringLiteral>()) {
+      text = static_cast<Core::Data::Ast::Text*>(arg)->getValue().get();
+    } else if (arg->isDerivedFrom<TiStr>()) {
+      text = static_cast<TiStr*>(arg)->get();
     } else {
-      // We don't have an identifier string template, so we'll just copy the arg as is.
-      result = Core::Data::Ast::clone(args->getElement(index), sl);
+      auto elementSl = Core::Data::Ast::findSourceLocation(arg);
+      astProcessor->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidMacroArgNotice>(elementSl == 0 ? getSharedPtr(sl) : elementSl)
+      );
+      return false;
     }
+    Char newVar[1000];
+    astProcessor->generateStringFromTemplate(
+      obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
+    );
+    result = Core::Data::Ast::StringLiteral::create({
+      { S("value"), TiStr(newVar) },
+      { S("sourceLocation"), obj->getSourceLocation() }
+    });
+    Core::Data::Ast::addSourceLocation(result.get(), sl);
   } else {
     result = Core::Data::Ast::clone(obj, sl);
   }
-- 
2.43.0


From 4ca88cc9488e0be3beba221bc3b80cea9703a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 31/59] fix: string templates in macros are not cut at 1000
 bytes

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index bae671a..0cf385e 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -550,10 +550,10 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
       );
       return false;
     }
-    Char newVar[1000];
-    astProcessor->generateStringFromTemplate(
-      obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
-    );
+    Str newVar;
+    if (prefixSize > 0) newVar.append(obj->getValue().get(), prefixSize);
+    newVar.append(text);
+    newVar.append(suffix);
     result = Core::Data::Ast::StringLiteral::create({
       { S("value"), TiStr(newVar) },
       { S("sourceLocation"), obj->getSourceLocation() }
-- 
2.43.0


From c7a65278ae75b5ebdd87513955fe17653cd78922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 32/59] fix: member macros accept more than one argument in
 addition to the object

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 0cf385e..ebe844b 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -156,7 +156,14 @@ Bool AstProcessor::_processParamPass(
       if (!astProcessor->expressionComputation->computeResultType(thisArg, owner, member)) return false;
       if (owner->isDerivedFrom<Spp::Ast::Type>()) {
         owner = astProcessor->astHelper->tryGetDeepReferenceContentType(static_cast<Spp::Ast::Type*>(owner));
-        if (member) argsList.insert(0, thisArg);
+        if (member) {
+          if (args != &argsList) {
+            // Use a copy of the list, to avoid adding the this argument to the AST.
+            for (Int i = 0; i < args->getElementCount(); ++i) argsList.add(args->getElement(i));
+            args = &argsList;
+          }
+          argsList.insert(0, thisArg);
+        }
       }
       operand = linkOp->getSecond().get();
       foreachFlags = Core::Data::Seeker::Flags::SKIP_OWNERS;
-- 
2.43.0


From 79ef94f63a112b4f32d4cf2c791417ce26ebdc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 33/59] fix: bodies, conditions and cast types that evaluate to
 null do not crash the compiler

---
 Sources/Spp/CodeGen/CommandGenerator.cpp    | 31 +++++++++++++++++----
 Sources/Spp/CodeGen/ExpressionGenerator.cpp |  7 +++++
 Sources/Spp/CodeGen/Generator.cpp           |  2 ++
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 1222b28..dca67ea 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -150,12 +150,19 @@ Bool CommandGenerator::_generateIfStatement(
   // Generate condition.
   GenResult conditionResult;
   Session condSession(session, ifTgContext->getConditionContext(), session->getTgAllocContext());
+  if (astNode->getCondition() == 0) {
+    // This can happen when a macro or a preprocess statement evaluates to null.
+    cmdGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidConditionValueNotice>(astNode->findSourceLocation())
+    );
+    return false;
+  }
   if (!cmdGenerator->generateCondition(astNode->getCondition().get(), g, &condSession, conditionResult)) return false;
 
   // Generate ifBody.
   TerminalStatement terminalBody = TerminalStatement::UNKNOWN;
   Session bodySession(session, ifTgContext->getBodyContext(), session->getTgAllocContext());
-  if (ifBody->isDerivedFrom<Core::Data::Ast::Scope>()) {
+  if (ifBody != 0 && ifBody->isDerivedFrom<Core::Data::Ast::Scope>()) {
     session->getEda()->setCodeGenData(
       static_cast<Core::Data::Ast::Scope*>(ifBody), getSharedPtr(ifTgContext->getBodyContext())
     );
@@ -196,12 +203,19 @@ Bool CommandGenerator::_generateWhileStatement(
   // Generate the condition.
   GenResult conditionResult;
   Session condSession(session, loopTgContext->getConditionContext(), session->getTgAllocContext());
+  if (astNode->getCondition() == 0) {
+    // This can happen when a macro or a preprocess statement evaluates to null.
+    cmdGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidConditionValueNotice>(astNode->findSourceLocation())
+    );
+    return false;
+  }
   if (!cmdGenerator->generateCondition(astNode->getCondition().get(), g, &condSession, conditionResult)) return false;
 
   // Generate body.
   auto body = astNode->getBody().get();
   Session bodySession(session, loopTgContext->getBodyContext(), session->getTgAllocContext());
-  if (body->isDerivedFrom<Core::Data::Ast::Scope>()) {
+  if (body != 0 && body->isDerivedFrom<Core::Data::Ast::Scope>()) {
     session->getEda()->setCodeGenData(
       static_cast<Core::Data::Ast::Scope*>(body), getSharedPtr(loopTgContext->getBodyContext())
     );
@@ -232,6 +246,13 @@ Bool CommandGenerator::_generateForStatement(
   // Generate the condition.
   GenResult conditionResult;
   Session condSession(session, loopTgContext->getConditionContext(), session->getTgAllocContext());
+  if (astNode->getCondition() == 0) {
+    // This can happen when a macro or a preprocess statement evaluates to null.
+    cmdGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidConditionValueNotice>(astNode->findSourceLocation())
+    );
+    return false;
+  }
   if (!cmdGenerator->generateCondition(astNode->getCondition().get(), g, &condSession, conditionResult)) return false;
 
   Bool result = true;
@@ -240,8 +261,8 @@ Bool CommandGenerator::_generateForStatement(
   session->getDestructionStack()->pushScope();
   GenResult updateResult;
   Session updaterSession(session, loopTgContext->getUpdaterContext(), session->getTgAllocContext());
-  TerminalStatement terminal;
-  if (!g->generateExpression(
+  TerminalStatement terminal = TerminalStatement::UNKNOWN;
+  if (astNode->getUpdater() != 0 && !g->generateExpression(
     astNode->getUpdater().get(), &updaterSession, updateResult, terminal
   )) return false;
   if (terminal == TerminalStatement::YES) {
@@ -261,7 +282,7 @@ Bool CommandGenerator::_generateForStatement(
   // Generate body.
   auto body = astNode->getBody().get();
   Session bodySession(session, loopTgContext->getBodyContext(), session->getTgAllocContext());
-  if (body->isDerivedFrom<Core::Data::Ast::Scope>()) {
+  if (body != 0 && body->isDerivedFrom<Core::Data::Ast::Scope>()) {
     session->getEda()->setCodeGenData(
       static_cast<Core::Data::Ast::Scope*>(body), getSharedPtr(loopTgContext->getBodyContext())
     );
diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index 84ef04a..d73123a 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -1900,6 +1900,13 @@ Bool ExpressionGenerator::_generateCastOp(
   )) return false;
 
   // Get the target type.
+  if (astNode->getTargetType() == 0) {
+    // This can happen when a macro or a preprocess statement evaluates to null.
+    expGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidCastNotice>(astNode->getSourceLocation())
+    );
+    return false;
+  }
   auto targetAstType = expGenerator->astHelper->traceType(astNode->getTargetType().get());
   if (targetAstType == 0) return false;
 
diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index afd7ea6..115b422 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -941,6 +941,8 @@ Bool Generator::_generateStatementBlock(
   PREPARE_SELF(generation, Generation);
   Bool result = true;
   terminal = TerminalStatement::UNKNOWN;
+  // The body of a control statement is null when it's a macro or a preprocess statement that evaluated to null.
+  if (astBlock == 0) return true;
   session->getDestructionStack()->pushScope();
   if (astBlock->isDerivedFrom<Core::Data::Ast::Scope>()) {
     for (Int i = 0; i < static_cast<Core::Data::Ast::Scope*>(astBlock)->getCount(); ++i) {
-- 
2.43.0


From cfd906de48666a78f8a90503179d6ff5be735c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 34/59] fix: ASTs inserted in argument lists do not replace the
 following argument

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index ebe844b..ff5aa5c 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -423,11 +423,15 @@ Bool AstProcessor::_insertInterpolatedAst(
     if (ownerContainer == 0) {
       throw EXCEPTION(GenericException, S("Unexpected AST insert location."));
     }
-    auto insertedScope = result.s_cast_get<Core::Data::Ast::Scope>();
-    if (insertedScope != 0 && insertedScope->getCount() == 1) {
-      ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, insertedScope->getElement(0));
+    auto insertedScope = result.ti_cast_get<Core::Data::Ast::Scope>();
+    auto inserted =
+      insertedScope != 0 && insertedScope->getCount() == 1 ? insertedScope->getElement(0) : result.get();
+    auto ownerDynContainer = ti_cast<DynamicContaining<TiObject>>(astProcessor->currentPreprocessOwner);
+    if (ownerDynContainer != 0) {
+      // The preprocess statement was removed from the container, so we need to insert in its place.
+      ownerDynContainer->insertElement(astProcessor->currentPreprocessInsertionPosition++, inserted);
     } else {
-      ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, result.get());
+      ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, inserted);
     }
   }
   return true;
-- 
2.43.0


From 93ed2b0c22ce73b014da657af7baa9ce26d8502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 35/59] fix: all ASTs inserted by one preprocess statement into
 a control statement's body are kept

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 80 ++++++++++++++++++----------
 Sources/Spp/CodeGen/AstProcessor.h   |  3 ++
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index ff5aa5c..9e8c458 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -234,10 +234,12 @@ Bool AstProcessor::_processPreprocessStatement(
 
   TiObject *prevPreprocessOwner = astProcessor->currentPreprocessOwner;
   Int prevPreprocessInsertionPosition = astProcessor->currentPreprocessInsertionPosition;
+  auto prevPreprocessInsertedScope = astProcessor->currentPreprocessInsertedScope;
   SharedPtr<Core::Data::SourceLocation> prevPreprocessSourceLocation = astProcessor->currentPreprocessSourceLocation;
 
   astProcessor->currentPreprocessOwner = owner;
   astProcessor->currentPreprocessInsertionPosition = indexInOwner;
+  astProcessor->currentPreprocessInsertedScope = 0;
   astProcessor->currentPreprocessSourceLocation = preprocess->findSourceLocation();
 
   // Remove the preprocess statement.
@@ -261,6 +263,7 @@ Bool AstProcessor::_processPreprocessStatement(
 
   astProcessor->currentPreprocessOwner = prevPreprocessOwner;
   astProcessor->currentPreprocessInsertionPosition = prevPreprocessInsertionPosition;
+  astProcessor->currentPreprocessInsertedScope = prevPreprocessInsertedScope;
   astProcessor->currentPreprocessSourceLocation = prevPreprocessSourceLocation;
 
   return result;
@@ -402,42 +405,63 @@ Bool AstProcessor::_insertInterpolatedAst(
     return false;
   }
   // Insert the interpolated AST.
-  if (astProcessor->currentPreprocessOwner->isDerivedFrom<Core::Data::Ast::Scope>()) {
-    auto ownerScope = static_cast<Core::Data::Ast::Scope*>(astProcessor->currentPreprocessOwner);
-    if (result->isDerivedFrom<Core::Data::Ast::Scope>()) {
-      // Merge the two scopes.
-      auto insertedScope = result.s_cast_get<Core::Data::Ast::Scope>();
-      Core::Data::Ast::addPossiblyMergeableElements(
-        insertedScope, ownerScope, astProcessor->currentPreprocessInsertionPosition,
-        astProcessor->astHelper->getSeeker(), astProcessor->astHelper->getNoticeStore()
-      );
+  auto ownerScope = ti_cast<Core::Data::Ast::Scope>(astProcessor->currentPreprocessOwner);
+  auto ownerDynContainer = ti_cast<DynamicContaining<TiObject>>(astProcessor->currentPreprocessOwner);
+  auto ownerContainer = ti_cast<Containing<TiObject>>(astProcessor->currentPreprocessOwner);
+  auto resultScope = result.ti_cast_get<Core::Data::Ast::Scope>();
+  if (ownerScope != 0) {
+    astProcessor->insertIntoScope(result.get(), ownerScope, astProcessor->currentPreprocessInsertionPosition);
+  } else if (ownerDynContainer != 0) {
+    // The preprocess statement was removed from the container, so we need to insert in its place.
+    ownerDynContainer->insertElement(
+      astProcessor->currentPreprocessInsertionPosition++,
+      resultScope != 0 && resultScope->getCount() == 1 ? resultScope->getElement(0) : result.get()
+    );
+  } else if (ownerContainer != 0) {
+    auto position = astProcessor->currentPreprocessInsertionPosition;
+    auto current = ownerContainer->getElement(position);
+    if (current != 0 && ti_cast<DynamicMapContaining<TiObject>>(astProcessor->currentPreprocessOwner) == 0) {
+      // The same preprocess statement has already inserted into this single element location.
+      auto scope = astProcessor->currentPreprocessInsertedScope;
+      if (scope == 0) {
+        auto block = Spp::Ast::Block::create();
+        block->setSourceLocation(astProcessor->currentPreprocessSourceLocation);
+        block->addElement(current);
+        ownerContainer->setElement(position, block.get());
+        scope = astProcessor->currentPreprocessInsertedScope = block.get();
+      }
+      Int index = scope->getElementCount();
+      astProcessor->insertIntoScope(result.get(), scope, index);
+    } else if (resultScope != 0 && resultScope->getCount() == 1) {
+      ownerContainer->setElement(position, resultScope->getElement(0));
     } else {
-      // Add a single element to the scope
-      Core::Data::Ast::addPossiblyMergeableElement(
-        result.get(), ownerScope, astProcessor->currentPreprocessInsertionPosition,
-        astProcessor->astHelper->getSeeker(), astProcessor->astHelper->getNoticeStore()
-      );
+      ownerContainer->setElement(position, result.get());
+      astProcessor->currentPreprocessInsertedScope = resultScope;
     }
   } else {
-    auto ownerContainer = ti_cast<Containing<TiObject>>(astProcessor->currentPreprocessOwner);
-    if (ownerContainer == 0) {
-      throw EXCEPTION(GenericException, S("Unexpected AST insert location."));
-    }
-    auto insertedScope = result.ti_cast_get<Core::Data::Ast::Scope>();
-    auto inserted =
-      insertedScope != 0 && insertedScope->getCount() == 1 ? insertedScope->getElement(0) : result.get();
-    auto ownerDynContainer = ti_cast<DynamicContaining<TiObject>>(astProcessor->currentPreprocessOwner);
-    if (ownerDynContainer != 0) {
-      // The preprocess statement was removed from the container, so we need to insert in its place.
-      ownerDynContainer->insertElement(astProcessor->currentPreprocessInsertionPosition++, inserted);
-    } else {
-      ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, inserted);
-    }
+    throw EXCEPTION(GenericException, S("Unexpected AST insert location."));
   }
   return true;
 }
 
 
+void AstProcessor::insertIntoScope(TiObject *obj, Core::Data::Ast::Scope *scope, Int &index)
+{
+  if (obj->isDerivedFrom<Core::Data::Ast::Scope>()) {
+    // Merge the two scopes.
+    Core::Data::Ast::addPossiblyMergeableElements(
+      static_cast<Core::Data::Ast::Scope*>(obj), scope, index,
+      this->astHelper->getSeeker(), this->astHelper->getNoticeStore()
+    );
+  } else {
+    // Add a single element to the scope
+    Core::Data::Ast::addPossiblyMergeableElement(
+      obj, scope, index, this->astHelper->getSeeker(), this->astHelper->getNoticeStore()
+    );
+  }
+}
+
+
 Bool AstProcessor::_interpolateAst(
   TiObject *self, TiObject *obj, Array<Str> const *argNames, Containing<TiObject> *args,
   Core::Data::SourceLocation *sl, TioSharedPtr &result
diff --git a/Sources/Spp/CodeGen/AstProcessor.h b/Sources/Spp/CodeGen/AstProcessor.h
index 1708a56..486fc7e 100644
--- a/Sources/Spp/CodeGen/AstProcessor.h
+++ b/Sources/Spp/CodeGen/AstProcessor.h
@@ -43,6 +43,7 @@ class AstProcessor : public TiObject, public DynamicBinding, public DynamicInter
   private: SharedList<TiObject> *astNodeRepo;
   private: TiObject *currentPreprocessOwner;
   private: Int currentPreprocessInsertionPosition;
+  private: Core::Data::Ast::Scope *currentPreprocessInsertedScope = 0;
   private: SharedPtr<Core::Data::SourceLocation> currentPreprocessSourceLocation;
 
 
@@ -177,6 +178,8 @@ class AstProcessor : public TiObject, public DynamicBinding, public DynamicInter
     TiObject *self, TiObject *obj, Array<Str> const *argNames, Containing<TiObject> *args
   );
 
+  private: void insertIntoScope(TiObject *obj, Core::Data::Ast::Scope *scope, Int &index);
+
   public: METHOD_BINDING_CACHE(interpolateAst,
     Bool, (
       TiObject* /* obj */, Array<Str> const* /* argNames */, Containing<TiObject>* /* args */,
-- 
2.43.0


From 49bed1766210c333e1e556155b1c7e3b14504ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 36/59] fix: square brackets on an expression that is not a
 reference are reported instead of ending the compiler

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 9e8c458..f185ec4 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -171,6 +171,14 @@ Bool AstProcessor::_processParamPass(
       owner = paramPass->getOwner();
     }
 
+    // Only references can lead to macros, other expressions can still have square brackets operators.
+    if (
+      operand == 0 ||
+      (!operand->isDerivedFrom<Core::Data::Ast::Identifier>() && !operand->isDerivedFrom<Core::Data::Ast::ParamPass>())
+    ) {
+      return result;
+    }
+
     Ast::Macro *macro = 0;
     astProcessor->astHelper->getSeeker()->extForeach(operand, owner,
       [=, &macro] (TiInt action, TiObject *obj)->Core::Data::Seeker::Verb
-- 
2.43.0


From 4dba1da9d80a8398951444eff0f5e703c955a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 37/59] fix: aliases that refer to themselves are reported as
 unknown instead of exhausting the stack

---
 Sources/Core/Data/Seeker.cpp | 26 +++++++++++++++++---------
 Sources/Core/Data/Seeker.h   | 10 ++++++++++
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/Sources/Core/Data/Seeker.cpp b/Sources/Core/Data/Seeker.cpp
index 31e2d58..d7afb49 100644
--- a/Sources/Core/Data/Seeker.cpp
+++ b/Sources/Core/Data/Seeker.cpp
@@ -11,6 +11,7 @@
 //==============================================================================
 
 #include "core.h"
+#include <algorithm>
 
 namespace Core::Data
 {
@@ -597,9 +598,7 @@ Seeker::Verb Seeker::_foreach_identifierAtScope(
         else if (!Seeker::isMove(verb)) return verb;
         PREPARE_SELF(seeker, Seeker);
         auto alias = static_cast<Ast::Alias*>(obj);
-        verb = seeker->foreach(
-          alias->getReference().get(), alias->getOwner(), cb, flags & ~Flags::SKIP_OWNED
-        );
+        verb = seeker->foreachAliasTarget(alias, cb, flags & ~Flags::SKIP_OWNED);
         if (!Seeker::isMove(verb)) return verb;
         verb = cb(Action::ALIAS_TRACE_END, obj);
         if (verb != Verb::MOVE) return verb;
@@ -652,9 +651,7 @@ Seeker::Verb Seeker::_foreach_identifierOnScope(
         else if (!Seeker::isMove(verb)) return verb;
         PREPARE_SELF(seeker, Seeker);
         auto alias = static_cast<Ast::Alias*>(obj);
-        verb = seeker->foreach(
-          alias->getReference().get(), alias->getOwner(), cb, flags & ~Flags::SKIP_OWNED
-        );
+        verb = seeker->foreachAliasTarget(alias, cb, flags & ~Flags::SKIP_OWNED);
         if (!Seeker::isMove(verb)) break;
         verb = cb(Action::ALIAS_TRACE_END, obj);
         if (verb != Verb::MOVE) return verb;
@@ -681,9 +678,7 @@ Seeker::Verb Seeker::_foreach_identifierOnMap(
     else if (!Seeker::isMove(verb)) return verb;
     PREPARE_SELF(seeker, Seeker);
     auto alias = static_cast<Ast::Alias*>(obj);
-    verb = seeker->foreach(
-      alias->getReference().get(), alias->getOwner(), cb, flags & ~Flags::SKIP_OWNED
-    );
+    verb = seeker->foreachAliasTarget(alias, cb, flags & ~Flags::SKIP_OWNED);
     if (verb != Verb::MOVE) return verb;
     return cb(Action::ALIAS_TRACE_END, obj);
   } else {
@@ -774,4 +769,17 @@ Seeker::Verb Seeker::_extForeach(
   }, flags);
 }
 
+
+Seeker::Verb Seeker::foreachAliasTarget(Ast::Alias *alias, ForeachCallback const &cb, Word flags)
+{
+  // The same alias may be legitimately traced while it is already being traced since callbacks can do searches of their
+  // own, so only a deep nesting is considered a circle.
+  static Int const MAX_NESTING = 100;
+  if (std::count(this->tracedAliases.begin(), this->tracedAliases.end(), alias) >= MAX_NESTING) return Verb::STOP;
+
+  this->tracedAliases.push_back(alias);
+  finally([this]() { this->tracedAliases.pop_back(); });
+  return this->foreach(alias->getReference().get(), alias->getOwner(), cb, flags);
+}
+
 } // namespace
diff --git a/Sources/Core/Data/Seeker.h b/Sources/Core/Data/Seeker.h
index 47073c0..5064f9a 100644
--- a/Sources/Core/Data/Seeker.h
+++ b/Sources/Core/Data/Seeker.h
@@ -59,6 +59,13 @@ class Seeker : public TiObject, public DynamicBinding, public DynamicInterfacing
   public: typedef std::function<Verb(TiInt action, TiObject *obj)> ForeachCallback;
 
 
+  //============================================================================
+  // Member Variables
+
+  /// The aliases being traced, used to detect aliases that refer to themselves.
+  private: std::vector<Ast::Alias*> tracedAliases;
+
+
   //============================================================================
   // Implementations
 
@@ -327,6 +334,9 @@ class Seeker : public TiObject, public DynamicBinding, public DynamicInterfacing
     TiObject *self, TiObject const *ref, TiObject *target, ForeachCallback const &cb, Word flags
   );
 
+  /// Visits what an alias refers to. The search is stopped if the alias turns out to refer to itself.
+  private: Verb foreachAliasTarget(Ast::Alias *alias, ForeachCallback const &cb, Word flags);
+
   /// @}
 
 }; // class
-- 
2.43.0


From d76f3364b6d94ae34716d465c1c4c60538f8dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 38/59] fix: returning a function or module is reported instead
 of ending the compiler

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index dca67ea..69a2524 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -70,6 +70,13 @@ Bool CommandGenerator::_generateReturnStatement(
       );
       return false;
     }
+    if (operandResult.astType == 0) {
+      // The operand has no value, e.g. a reference to a function or a module.
+      cmdGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidReturnValueNotice>(astNode->findSourceLocation())
+      );
+      return false;
+    }
     // Generate the return statement.
     if (retType->getInitializationMethod(cmdGenerator->astHelper) != Ast::TypeInitMethod::NONE) {
       // Assign value to ret reference.
-- 
2.43.0


From 24df64ab07ed3c6d577b1ef53854b28f3af514c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 39/59] fix: operators with no implementation are reported
 instead of ending the compiler

---
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index d73123a..35fb0b2 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -539,7 +539,10 @@ Bool ExpressionGenerator::_generateOperator(
     } else if (infixOp->getType() == S("&&") || infixOp->getType() == S("and")) {
       return expGenerator->generateLogicalOp(infixOp, g, session, result);
     } else {
-      throw EXCEPTION(GenericException, S("Unexpected infix operator."));
+      expGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidOperationNotice>(infixOp->findSourceLocation())
+      );
+      return false;
     }
   } else if (astNode->isDerivedFrom<Core::Data::Ast::PrefixOperator>()) {
     auto outfixOp = static_cast<Core::Data::Ast::PrefixOperator*>(astNode);
@@ -557,7 +560,10 @@ Bool ExpressionGenerator::_generateOperator(
     } else if (outfixOp->getType() == S("++")) { funcName = S("__earlyInc"); opType = OpType::UNARY_VAR; }
     else if (outfixOp->getType() == S("--")) { funcName = S("__earlyDec"); opType = OpType::UNARY_VAR; }
     else {
-      throw EXCEPTION(GenericException, S("Unexpected prefix operator."));
+      expGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidOperationNotice>(outfixOp->findSourceLocation())
+      );
+      return false;
     }
   } else if (astNode->isDerivedFrom<Core::Data::Ast::PostfixOperator>()) {
     auto outfixOp = static_cast<Core::Data::Ast::PostfixOperator*>(astNode);
@@ -570,7 +576,10 @@ Bool ExpressionGenerator::_generateOperator(
     if (outfixOp->getType() == S("++")) { funcName = S("__lateInc"); opType = OpType::UNARY_VAR; }
     else if (outfixOp->getType() == S("--")) { funcName = S("__lateDec"); opType = OpType::UNARY_VAR; }
     else {
-      throw EXCEPTION(GenericException, S("Unexpected postfix operator."));
+      expGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidOperationNotice>(outfixOp->findSourceLocation())
+      );
+      return false;
     }
   } else {
     throw EXCEPTION(GenericException, S("Unexpected operator type."));
-- 
2.43.0


From 5294731ab12515ecea43c28fb8c19188182d5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 40/59] fix: looking up an expression that is not a reference
 reports it as unknown instead of ending the compiler

---
 Sources/Core/Data/Seeker.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Sources/Core/Data/Seeker.cpp b/Sources/Core/Data/Seeker.cpp
index d7afb49..4bdf450 100644
--- a/Sources/Core/Data/Seeker.cpp
+++ b/Sources/Core/Data/Seeker.cpp
@@ -513,7 +513,8 @@ Seeker::Verb Seeker::_foreach(
   } else if (ref->isA<Ast::LinkOperator>()) {
     return seeker->foreach_linkOperator(static_cast<Ast::LinkOperator const*>(ref), target, cb, flags);
   } else {
-    throw EXCEPTION(InvalidArgumentException, S("ref"), S("Unrecognized reference type."));
+    // Not a reference, so it does not refer to anything.
+    return Seeker::Verb::MOVE;
   }
 }
 
@@ -720,11 +721,7 @@ Seeker::Verb Seeker::_foreach_linkOperatorRouting(
           return seeker->foreach_identifierOnMap(static_cast<Ast::Identifier*>(second), map, cb, flags);
         }
       }
-    } else {
-      throw EXCEPTION(InvalidArgumentException, S("link"), S("Unrecognized type for link operator's second part."));
     }
-  } else {
-    throw EXCEPTION(InvalidArgumentException, S("link"), S("Unknown link operator type."), link->getType());
   }
   return Seeker::Verb::MOVE;
 }
-- 
2.43.0


From dbf1cb15cb6bf1382c38e41e82322c653d12179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 41/59] fix: a return statement outside a function is reported
 instead of ending the compiler

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 69a2524..1984f99 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -53,7 +53,10 @@ Bool CommandGenerator::_generateReturnStatement(
   // Get this function's return type.
   Ast::Function *function = Core::Data::findOwner<Ast::Function>(astNode);
   if (function == 0) {
-    throw EXCEPTION(GenericException, S("Return statement does not belong to a function."));
+    cmdGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidOperationNotice>(astNode->findSourceLocation())
+    );
+    return false;
   }
   auto retTypeRef = function->getType()->getRetType().ti_cast_get<Core::Data::Node>();
   Ast::Type *retType = function->getType()->traceRetType(cmdGenerator->astHelper);
-- 
2.43.0


From bec02d526f5d2dee79c1cc06f4581d9f13e315a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 42/59] fix: break, continue, ast and preprocess in places or
 forms they cannot have are reported instead of ending the compiler

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 14 ++++++++++++++
 Sources/Spp/Grammar/SppFactory.cpp       | 10 +++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 1984f99..f8e6aff 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -324,6 +324,13 @@ Bool CommandGenerator::_generateContinueStatement(
   Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
+    if (loopNode == 0) {
+      // The statement is outside any function.
+      cmdGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
+      );
+      return false;
+    }
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
     } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
@@ -372,6 +379,13 @@ Bool CommandGenerator::_generateBreakStatement(
   Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
+    if (loopNode == 0) {
+      // The statement is outside any function.
+      cmdGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
+      );
+      return false;
+    }
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
     } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
diff --git a/Sources/Spp/Grammar/SppFactory.cpp b/Sources/Spp/Grammar/SppFactory.cpp
index 168b79a..e6eb0e6 100644
--- a/Sources/Spp/Grammar/SppFactory.cpp
+++ b/Sources/Spp/Grammar/SppFactory.cpp
@@ -502,8 +502,10 @@ void SppFactory::createGrammar()
   }}, newSrdObj<CustomParsingHandler>([](Parser *parser, ParserState *state) {
     auto metadata = state->getData().ti_cast_get<Data::Ast::MetaHaving>();
     auto currentList = state->getData().ti_cast_get<Containing<TiObject>>();
-    if (currentList->getElementCount() != 2) {
-      throw EXCEPTION(GenericException, S("Unexpected error while parsing `preprocess` statement."));
+    if (currentList == 0 || currentList->getElementCount() != 2) {
+      // The statement's body is missing, which the parser has already reported as a syntax error.
+      state->setData(SharedPtr<TiObject>(0));
+      return;
     }
     auto preprocessStatement = Ast::PreprocessStatement::create({
       { S("prodId"), metadata->getProdId() },
@@ -535,7 +537,9 @@ void SppFactory::createGrammar()
       auto metadata = state->getData().ti_cast_get<Data::Ast::MetaHaving>();
       auto currentList = state->getData().ti_cast_get<Containing<TiObject>>();
       if (currentList == 0 || currentList->getElementCount() != 2) {
-        throw EXCEPTION(GenericException, S("Unexpected data type while parsing AST literal command."));
+        // The literal's body is missing, which the parser has already reported as a syntax error.
+        state->setData(SharedPtr<TiObject>(0));
+        return;
       }
       auto astLiteralCommand = Ast::AstLiteralCommand::create({
         { "prodId", metadata->getProdId() },
-- 
2.43.0


From 5d2a79d4441db817ea886302c1cd1874635ff70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 43/59] fix: variables, members and array elements of types
 that have no values are reported instead of ending the compiler

---
 Sources/Spp/Ast/Template.cpp          |  4 ++--
 Sources/Spp/CodeGen/Generator.cpp     |  5 ++++-
 Sources/Spp/CodeGen/TypeGenerator.cpp | 18 +++++++++++++++++-
 Sources/Spp/CodeGen/TypeGenerator.h   |  3 +++
 Sources/Spp/Handlers/handlers.cpp     |  8 +++++++-
 5 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/Ast/Template.cpp b/Sources/Spp/Ast/Template.cpp
index a9aacdf..ba09e59 100644
--- a/Sources/Spp/Ast/Template.cpp
+++ b/Sources/Spp/Ast/Template.cpp
@@ -100,8 +100,8 @@ Bool Template::prepareTemplateVars(
     if (varDef == 0) {
       throw EXCEPTION(GenericException, S("Invalid template variable definition."));
     }
-    if (list != 0 && i < list->getCount()) templateInput = list->getElement(i);
-    else if (list == 0 && i == 0) templateInput = templateInputs;
+    if (list != 0 && i < list->getCount() && list->getElement(i) != 0) templateInput = list->getElement(i);
+    else if (list == 0 && i == 0 && templateInputs != 0) templateInput = templateInputs;
     else if (varDef->getDefaultVal() != 0) templateInput = varDef->getDefaultVal().get();
     else {
       notice = newSrdObj<Spp::Notices::TemplateArgMismatchNotice>(
diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index 115b422..0e4c21d 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -383,7 +383,10 @@ Bool Generator::_generateVarDef(TiObject *self, Core::Data::Ast::Definition *def
     // Generate the type of the variable.
     Ast::Type *astType;
     TiObject *tgType;
-    if (!generator->typeGenerator->getGeneratedType(astTypeRef, generation, session, tgType, &astType)) {
+    if (
+      !generator->typeGenerator->getGeneratedType(astTypeRef, generation, session, tgType, &astType) ||
+      !generator->typeGenerator->validateInMemType(astTypeRef, astType)
+    ) {
       session->getEda()->setCodeGenFailed(astVar, true);
       return false;
     }
diff --git a/Sources/Spp/CodeGen/TypeGenerator.cpp b/Sources/Spp/CodeGen/TypeGenerator.cpp
index e804cfb..1d42aba 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.cpp
+++ b/Sources/Spp/CodeGen/TypeGenerator.cpp
@@ -121,6 +121,18 @@ Bool TypeGenerator::_getGeneratedType(TiObject *ref, Generation *g, Session *ses
 }
 
 
+Bool TypeGenerator::validateInMemType(TiObject *ref, Ast::Type *astType)
+{
+  if (astType->isDerivedFrom<Ast::VoidType>() || astType->isDerivedFrom<Ast::FunctionType>()) {
+    this->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::InvalidTypeNotice>(Core::Data::Ast::findSourceLocation(ref))
+    );
+    return false;
+  }
+  return true;
+}
+
+
 Bool TypeGenerator::getGeneratedTypeAutoCtor(
   Spp::Ast::Type *astType, Generation *g, Session *session, TiObject *&tgAutoCtor
 ) {
@@ -264,6 +276,7 @@ Bool TypeGenerator::_generateArrayType(TiObject *self, Spp::Ast::ArrayType *astT
   PREPARE_SELF(typeGenerator, TypeGenerator);
   auto contentAstType = astType->getContentType(typeGenerator->astHelper);
   if (!typeGenerator->generateType(contentAstType, g, session)) return false;
+  if (!typeGenerator->validateInMemType(astType, contentAstType)) return false;
   TiObject *contentTgType = session->getEda()->getCodeGenData<TiObject>(contentAstType);
   auto size = astType->getSize(typeGenerator->astHelper);
   TioSharedPtr tgType;
@@ -341,7 +354,10 @@ Bool TypeGenerator::_generateUserTypeMemberVars(
         if (typeGenerator->astHelper->getVariableDomain(def) == Ast::DefinitionDomain::OBJECT) {
           TiObject *tgType;
           Ast::Type *astMemberType;
-          if (!typeGenerator->getGeneratedType(obj, g, session, tgType, &astMemberType)) {
+          if (
+            !typeGenerator->getGeneratedType(obj, g, session, tgType, &astMemberType) ||
+            !typeGenerator->validateInMemType(obj, astMemberType)
+          ) {
             result = false;
             continue;
           }
diff --git a/Sources/Spp/CodeGen/TypeGenerator.h b/Sources/Spp/CodeGen/TypeGenerator.h
index 779eaaa..cfb8c06 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.h
+++ b/Sources/Spp/CodeGen/TypeGenerator.h
@@ -102,6 +102,9 @@ class TypeGenerator : public TiObject, public DynamicBinding, public DynamicInte
 
   private: Bool _getGeneratedType(TiObject *ref, Generation *g, Session *session, Spp::Ast::Type *&type);
 
+  /// Report an error if values of the given type cannot be stored in memory.
+  public: Bool validateInMemType(TiObject *ref, Ast::Type *astType);
+
   public: Bool getGeneratedTypeAutoCtor(
     Spp::Ast::Type *astType, Generation *g, Session *session, TiObject *&tgAutoCtor
   );
diff --git a/Sources/Spp/Handlers/handlers.cpp b/Sources/Spp/Handlers/handlers.cpp
index 0f7bc23..6d3761f 100644
--- a/Sources/Spp/Handlers/handlers.cpp
+++ b/Sources/Spp/Handlers/handlers.cpp
@@ -71,6 +71,12 @@ Bool processFunctionArgPacks(Spp::Ast::FunctionType *funcType, Core::Notices::St
       } else {
         packType = operand;
       }
+      if (packType == 0) {
+        noticeStore->add(
+          newSrdObj<Spp::Notices::InvalidFunctionArgTypeNotice>(prefixOp->findSourceLocation())
+        );
+        return false;
+      }
       if (packType->isA<Core::Data::Ast::Identifier>()) {
         auto packIdentifier = packType.s_cast<Core::Data::Ast::Identifier>();
         if (packIdentifier->getValue() == S("any")) {
@@ -104,7 +110,7 @@ Bool parseNumber(
   TiObject *ast, TiWord &result, Core::Data::Ast::MetaHaving *parentMetadata, Core::Notices::Store *noticeStore
 ) {
   auto metadata = ti_cast<Core::Data::Ast::MetaHaving>(ast);
-  if (ast->isA<Core::Data::Ast::IntegerLiteral>()) {
+  if (ast != 0 && ast->isA<Core::Data::Ast::IntegerLiteral>()) {
     result = Core::Data::Ast::getIntegerLiteralValue(static_cast<Core::Data::Ast::IntegerLiteral*>(ast));
     return true;
   } else {
-- 
2.43.0


From 0f61a7dc86a0dee7b8b6d458c00a1365b33853a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 44/59] fix: constructing a value of a type that has no values
 is reported instead of ending the compiler

---
 Sources/Spp/CodeGen/Generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index 0e4c21d..bf1307f 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -563,6 +563,7 @@ Bool Generator::_generateTempVar(
   // Generate the type of the variable.
   TiObject *tgType;
   if (!generator->typeGenerator->getGeneratedType(astType, generation, session, tgType, 0)) return false;
+  if (!generator->typeGenerator->validateInMemType(astNode, astType)) return false;
 
   // Also generate the reference type of this type.
   Ast::Type *astRefType = generator->astHelper->getPointerTypeFor(astType);
-- 
2.43.0


From 91c7dc5ab539da38f63882ceb40ec554400de41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 45/59] fix: literals with huge size suffixes and float
 literals beyond 32 bits don't end the compiler

---
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 28 +++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index 35fb0b2..f2ff3fa 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -15,6 +15,17 @@
 namespace Spp::CodeGen
 {
 
+//==============================================================================
+// Local Functions
+
+/// Parse the size at the end of a numeric literal, saturating sizes that are beyond the range of Int.
+static Int parseLiteralSize(Char const *src)
+{
+  auto size = std::strtoll(src, 0, 10);
+  return size > std::numeric_limits<Int>::max() ? std::numeric_limits<Int>::max() : (Int)size;
+}
+
+
 //==============================================================================
 // Initialization Functions
 
@@ -2311,11 +2322,11 @@ Bool ExpressionGenerator::_generateIntegerLiteral(
   if (*src == C('i') || *src == C('I')) {
     typeRequested = true;
     ++src;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = parseLiteralSize(src);
   } else if (compareStr(src, S("ص"), 2) == 0) {
     typeRequested = true;
     src += 2;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = parseLiteralSize(src);
   }
   if (size == 0) {
     if (value == 0 || value == 1) {
@@ -2365,18 +2376,21 @@ Bool ExpressionGenerator::_generateFloatLiteral(
   // TODO: Consider the different float sizes.
 
   // Parse the given value.
-  std::size_t numSize;
-  Double value = std::stof(src, &numSize);
-  src += numSize;
+  Char *valueEnd;
+  errno = 0;
+  Double value = std::strtof(src, &valueEnd);
+  // A value that is beyond the range of 32 bits isn't necessarily beyond the range of 64 bits.
+  if (errno == ERANGE) value = std::strtod(src, &valueEnd);
+  src = valueEnd;
 
   // Determine float size.
   Int size = 32;
   if (*src == C('f') || *src == C('F')) {
     ++src;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = parseLiteralSize(src);
   } else if (compareStr(src, S("ع"), 2) == 0) {
     src += 2;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = parseLiteralSize(src);
   }
 
   // Get the requested float type.
-- 
2.43.0


From c610a969639868d68bc47626c60d7fcc541d3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 46/59] fix: string literals written one after another are
 joined when no white space separates them

---
 Sources/Core/Processing/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index e619163..a4587f0 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -742,7 +742,7 @@ Lexer::NextAction Lexer::processMultiplyTerm(LexerState *state, WChar inputChar,
     state->refLevel(currentLevel).posId++;
     // Try the inner route.
     state->pushTermLevel(0, term);
-    NextAction ret = this->processState(state, inputChar, currentLevel+1);
+    NextAction ret = this->processState(state, inputChar, currentLevel);
     if (ret == CONTINUE_NEW_CHAR) {
       if (tryOuter) {
         // If we need to try the outer route as well, then we need to duplicate the state.
-- 
2.43.0


From b19c1fa1296d9d8210ca0af0b4faa33618c4ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 47/59] fix: slots can be destroyed, connected and disconnected
 at any time, including while their signal is firing

---
 Sources/Core/Basic/signals.h | 61 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/Sources/Core/Basic/signals.h b/Sources/Core/Basic/signals.h
index 2081d46..06850ce 100644
--- a/Sources/Core/Basic/signals.h
+++ b/Sources/Core/Basic/signals.h
@@ -51,7 +51,7 @@ template<class RT, class ...ARGS> class Slot
 
   public: ~Slot()
   {
-    for (auto signal : this->signals) signal->disconnect(*this);
+    this->disconnect();
   }
 
 
@@ -78,8 +78,8 @@ template<class RT, class ...ARGS> class Slot
 
   public: void disconnect()
   {
-    for (auto signal : this->signals) signal->disconnect(*this);
-    this->signals.clear();
+    // Disconnecting removes the signal from this list.
+    while (this->signals.size() > 0) this->signals.back()->disconnect(*this);
   }
 
   public: void init(RT(*f)(ARGS...))
@@ -140,10 +140,10 @@ template<class RT, class ...ARGS> class _Signal
 
   protected: struct SlotEntry
   {
+    /// This is null if the slot was disconnected while the signal was firing.
     Slot<RT, ARGS...> *slot;
-    Bool enabled;
-    SlotEntry() : slot(0), enabled(true) {}
-    SlotEntry(Slot<RT, ARGS...> *s) : slot(s), enabled(true) {}
+    SlotEntry() : slot(0) {}
+    SlotEntry(Slot<RT, ARGS...> *s) : slot(s) {}
   };
 
 
@@ -181,12 +181,12 @@ template<class RT, class ...ARGS> class _Signal
     for (Int i = 0; i < this->slotsEntries.size(); ++i) {
       if (this->slotsEntries[i].slot == &slot) {
         if (this->firing > 0) {
-          this->slotsEntries[i].enabled = false;
+          this->slotsEntries[i].slot = 0;
           this->scheduledDelete = true;
         } else {
           this->slotsEntries.erase(this->slotsEntries.begin() + i);
-          slot.removeSignal(this);
         }
+        slot.removeSignal(this);
         return;
       }
     }
@@ -194,8 +194,8 @@ template<class RT, class ...ARGS> class _Signal
 
   public: virtual void disconnectAll()
   {
-    while (this->slotsEntries.size() > 0) {
-      this->disconnect(*this->slotsEntries[0].slot);
+    for (Int i = this->slotsEntries.size() - 1; i >= 0; --i) {
+      if (this->slotsEntries[i].slot != 0) this->disconnect(*this->slotsEntries[i].slot);
     }
   }
 
@@ -204,10 +204,8 @@ template<class RT, class ...ARGS> class _Signal
     // TOOD: Apply thread safetly.
     if (!this->scheduledDelete || this->firing > 0) return;
     for (Int i = 0; i < this->slotsEntries.size(); ++i) {
-      if (!this->slotsEntries[i].enabled) {
-        auto slot = this->slotsEntries[i].slot;
+      if (this->slotsEntries[i].slot == 0) {
         this->slotsEntries.erase(this->slotsEntries.begin() + i);
-        slot->removeSignal(this);
         --i;
       }
     }
@@ -228,10 +226,11 @@ template<class ...ARGS> class Signal<void, ARGS...> : public _Signal<void, ARGS.
     });
 
     ++this->firing;
-    for (auto slotEntry : this->slotsEntries) {
-      if (slotEntry.enabled) {
-        if (slotEntry.slot->isInitialized()) slotEntry.slot->call(args...);
-      }
+    // Slots can be connected and disconnected while firing.
+    Int slotCount = this->slotsEntries.size();
+    for (Int i = 0; i < slotCount; ++i) {
+      auto slot = this->slotsEntries[i].slot;
+      if (slot != 0 && slot->isInitialized()) slot->call(args...);
     }
   }
 };
@@ -247,11 +246,11 @@ template<class ...ARGS> class Signal<Bool, ARGS...> : public _Signal<Bool, ARGS.
 
     ++this->firing;
     Word count = 0;
-    for (auto slotEntry : this->slotsEntries) {
-      if (slotEntry.enabled) {
-        if (slotEntry.slot->isInitialized()) {
-          if (slotEntry.slot->call(args...)) ++count;
-        }
+    Int slotCount = this->slotsEntries.size();
+    for (Int i = 0; i < slotCount; ++i) {
+      auto slot = this->slotsEntries[i].slot;
+      if (slot != 0 && slot->isInitialized()) {
+        if (slot->call(args...)) ++count;
       }
     }
     return count;
@@ -266,13 +265,13 @@ template<class ...ARGS> class Signal<Bool, ARGS...> : public _Signal<Bool, ARGS.
 
     Bool result = false;
     ++this->firing;
-    for (auto slotEntry : this->slotsEntries) {
-      if (slotEntry.enabled) {
-        if (slotEntry.slot->isInitialized()) {
-          if (slotEntry.slot->call(args...)) {
-            result = true;
-            break;
-          }
+    Int slotCount = this->slotsEntries.size();
+    for (Int i = 0; i < slotCount; ++i) {
+      auto slot = this->slotsEntries[i].slot;
+      if (slot != 0 && slot->isInitialized()) {
+        if (slot->call(args...)) {
+          result = true;
+          break;
         }
       }
     }
@@ -320,14 +319,14 @@ template<class RT, class ...ARGS> class SignalRelay : public _Signal<RT, ARGS...
   {
     signal.connect(this->linkSlot);
     for (auto slotEntry : this->slotsEntries) {
-      signal.connect(*slotEntry.slot);
+      if (slotEntry.slot != 0) signal.connect(*slotEntry.slot);
     }
   }
 
   public: void unrelay(_Signal<RT, ARGS...> &signal)
   {
     for (auto slotEntry : this->slotsEntries) {
-      signal.disconnect(*slotEntry.slot);
+      if (slotEntry.slot != 0) signal.disconnect(*slotEntry.slot);
     }
     signal.disconnect(this->linkSlot);
   }
-- 
2.43.0


From c2e2c3af4e170dfff59763c25978b7506d2f6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 48/59] fix: a map entry whose base entry is removed is added
 back with a copy of its key

---
 Sources/Core/Basic/PlainMapBase.h  | 2 +-
 Sources/Core/Basic/SharedMapBase.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Core/Basic/PlainMapBase.h b/Sources/Core/Basic/PlainMapBase.h
index eedcdb5..49279c5 100644
--- a/Sources/Core/Basic/PlainMapBase.h
+++ b/Sources/Core/Basic/PlainMapBase.h
@@ -241,7 +241,7 @@ template<class CTYPE, class PTYPE> class PlainMapBase : public PTYPE, public Dyn
       this->inherited->remove(index);
       this->onRemoved(index);
     } else {
-      auto key = this->getKey(index).getBuf();
+      Str key = this->getKey(index).getBuf();
       CTYPE *obj = this->get(index);
       this->prepareForUnset(key, index, obj, false);
       this->map.removeAt(index);
diff --git a/Sources/Core/Basic/SharedMapBase.h b/Sources/Core/Basic/SharedMapBase.h
index debc8b3..e3e22be 100644
--- a/Sources/Core/Basic/SharedMapBase.h
+++ b/Sources/Core/Basic/SharedMapBase.h
@@ -246,7 +246,7 @@ template<class CTYPE, class PTYPE> class SharedMapBase : public PTYPE, public Dy
       this->inherited->remove(index);
       this->onRemoved(index);
     } else {
-      auto key = this->getKey(index).getBuf();
+      Str key = this->getKey(index).getBuf();
       SharedPtr<CTYPE> obj = this->get(index);
       this->prepareForUnset(key, index, obj, false);
       this->map.removeAt(index);
-- 
2.43.0


From 4941dacc4ae7e55270c6f8d9175ba90eca31af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 49/59] fix: inserting into a list inside its base's sequence
 is refused, as it is for maps

---
 Sources/Core/Basic/PlainListBase.h  | 4 ++++
 Sources/Core/Basic/SharedListBase.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Sources/Core/Basic/PlainListBase.h b/Sources/Core/Basic/PlainListBase.h
index 9c64789..6ea70db 100644
--- a/Sources/Core/Basic/PlainListBase.h
+++ b/Sources/Core/Basic/PlainListBase.h
@@ -272,6 +272,10 @@ template<class CTYPE, class PTYPE> class PlainListBase : public PTYPE, public Dy
     if (static_cast<Word>(index) > this->list.getLength()) {
       throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
     }
+    if (static_cast<Word>(index) < this->getBaseDefCount()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"),
+                      S("Cannot insert at a position that breaks base's sequence."), index);
+    }
     auto obj = this->prepareForSet(index, val, false, true);
     this->list.insert(index, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
diff --git a/Sources/Core/Basic/SharedListBase.h b/Sources/Core/Basic/SharedListBase.h
index 4f18368..d1f286b 100644
--- a/Sources/Core/Basic/SharedListBase.h
+++ b/Sources/Core/Basic/SharedListBase.h
@@ -273,6 +273,10 @@ template<class CTYPE, class PTYPE> class SharedListBase : public PTYPE, public D
     if (static_cast<Word>(index) > this->list.getLength()) {
       throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
     }
+    if (static_cast<Word>(index) < this->getBaseDefCount()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"),
+                      S("Cannot insert at a position that breaks base's sequence."), index);
+    }
     auto obj = this->prepareForSet(index, val, false, true);
     this->list.insert(index, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
-- 
2.43.0


From 75b95682627e7d91513b0bc58132f7bf9e5a71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 50/59] fix: an element beyond a subset's last one joins the
 subset when it's updated

---
 Sources/Core/Basic/SubsetIndex.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sources/Core/Basic/SubsetIndex.h b/Sources/Core/Basic/SubsetIndex.h
index e6914a8..422c0c3 100644
--- a/Sources/Core/Basic/SubsetIndex.h
+++ b/Sources/Core/Basic/SubsetIndex.h
@@ -60,7 +60,10 @@ class SubsetIndex
   public: void onUpdated(Int index, Bool withinSubset)
   {
     Int pos = this->findPos(index);
-    if (pos == -1) return;
+    if (pos == -1) {
+      if (withinSubset) this->indices.add(index);
+      return;
+    }
     if (withinSubset && this->indices(pos) != index) this->indices.insert(pos, index);
     else if (!withinSubset && this->indices(pos) == index) this->indices.remove(pos);
   }
-- 
2.43.0


From a033a402b8bf34a29b2f83989a3cd9284cc0f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 51/59] fix: assigning a shared reference retains the new
 object before releasing the old one

---
 Sources/Srt/Srl/refs.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/refs.h b/Sources/Srt/Srl/refs.h
index 3972523..f105bdd 100644
--- a/Sources/Srt/Srl/refs.h
+++ b/Sources/Srt/Srl/refs.h
@@ -212,11 +212,10 @@ template<class T> class SrdRef
 
   public: void assign(RefCounter *c, T *r) {
     if (c != this->refCounter) {
+      // The new object is retained first because the current object can be its only other owner.
+      if (c != 0) ++c->count;
       this->release();
       this->refCounter = c;
-      if (this->refCounter != 0) {
-        ++this->refCounter->count;
-      }
     }
     this->obj = r;
   }
-- 
2.43.0


From 6d61aae124ce64937741e4fade6b6c7fec31e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 52/59] fix: assigning an array to itself keeps its content,
 and reserving space leaves buffers shared with other arrays alone

---
 Sources/Srt/Srl/Array.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Array.h b/Sources/Srt/Srl/Array.h
index fe31513..5c44336 100644
--- a/Sources/Srt/Srl/Array.h
+++ b/Sources/Srt/Srl/Array.h
@@ -103,7 +103,11 @@ template <class T> class Array
 
   public: void reserve(ArchInt size) {
     if (this->data == 0) this->data = ArrayData<T>::alloc(size);
-    else if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    else if (size > this->data->bufSize) {
+      // The buffer could be shared with other arrays.
+      this->_prepareToModify(false);
+      if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    }
   }
 
   public: ArchInt getLength() const {
@@ -117,6 +121,7 @@ template <class T> class Array
   }
 
   public: void assign (Array<T> const &ary) {
+    if (this->data == ary.data) return;
     this->_release();
     this->data = ary.data;
     if (this->data != 0) {
-- 
2.43.0


From 91a51216b57ff5e1c6a9fbf8207c1e87d355832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 53/59] fix: inserting into a map beyond its end is refused, as
 it is for lists

---
 Sources/Core/Basic/PlainMapBase.h  | 3 +++
 Sources/Core/Basic/SharedMapBase.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Sources/Core/Basic/PlainMapBase.h b/Sources/Core/Basic/PlainMapBase.h
index 49279c5..6cb63fd 100644
--- a/Sources/Core/Basic/PlainMapBase.h
+++ b/Sources/Core/Basic/PlainMapBase.h
@@ -306,6 +306,9 @@ template<class CTYPE, class PTYPE> class PlainMapBase : public PTYPE, public Dyn
       throw EXCEPTION(InvalidArgumentException, S("index"),
                       S("Cannot insert at a position that breaks base's sequence."), index);
     }
+    if (static_cast<Word>(index) > this->map.getLength()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range."), index);
+    }
     auto obj = this->prepareForSet(key, index, val, false, true);
     this->map.insert(index, key, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
diff --git a/Sources/Core/Basic/SharedMapBase.h b/Sources/Core/Basic/SharedMapBase.h
index e3e22be..7cb7ccb 100644
--- a/Sources/Core/Basic/SharedMapBase.h
+++ b/Sources/Core/Basic/SharedMapBase.h
@@ -311,6 +311,9 @@ template<class CTYPE, class PTYPE> class SharedMapBase : public PTYPE, public Dy
       throw EXCEPTION(InvalidArgumentException, S("index"),
                       S("Cannot insert at a position that breaks base's sequence."), index);
     }
+    if (static_cast<Word>(index) > this->map.getLength()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range."), index);
+    }
     auto obj = this->prepareForSet(key, index, val, false, true);
     this->map.insert(index, key, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
-- 
2.43.0


From 482bb67ebb60fa08c359f8c78af2136c491c58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 54/59] fix: a closure capturing a reference by_ref captures
 that reference, not a reference to it

---
 Sources/Srt/closure.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/closure.alusus b/Sources/Srt/closure.alusus
index 5398f40..5d1d41a 100644
--- a/Sources/Srt/closure.alusus
+++ b/Sources/Srt/closure.alusus
@@ -214,8 +214,8 @@ module Closures {
             def captureMode: String = captureModeTranslations(identifier.value.value);
             if captureMode == "" captureMode = identifier.value.value;
             if captureMode == "by_ref" {
-                // Capture by reference.
-                varType~no_deref = castRef[Spp.astMgr.getReferenceTypeFor(varType), Spp.Ast.Type];
+                // Capture by reference. If the variable is itself a reference we capture that, not a reference to it.
+                varType~no_deref = castRef[Spp.astMgr.getReferenceTypeFor(Spp.astMgr.tryGetDeepReferenceContentType(varType)), Spp.Ast.Type];
                 useNoDeref = true;
             } else if captureMode == "by_val" {
                 // Capture by value.
-- 
2.43.0


From ce78acd8678da1ea999265de09433fc4e45cc7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 55/59] fix: the Arabic wide string file imports the Arabic
 string file instead of one that does not exist

---
 ...5_\330\271\330\261\331\212\330\266.\330\243\330\263\330\263" | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git "a/Sources/Srt/\331\205\331\200\330\252\331\205/\331\206\331\200\330\265_\330\271\330\261\331\212\330\266.\330\243\330\263\330\263" "b/Sources/Srt/\331\205\331\200\330\252\331\205/\331\206\331\200\330\265_\330\271\330\261\331\212\330\266.\330\243\330\263\330\263"
index a569a6b..4f66728 100644
--- "a/Sources/Srt/\331\205\331\200\330\252\331\205/\331\206\331\200\330\265_\330\271\330\261\331\212\330\266.\330\243\330\263\330\263"
+++ "b/Sources/Srt/\331\205\331\200\330\252\331\205/\331\206\331\200\330\265_\330\271\330\261\331\212\330\266.\330\243\330\263\330\263"
@@ -10,7 +10,7 @@
 //==============================================================================
 
 اشمل "متم"؛
-اشمل "قـالب_نص"؛
+اشمل "نـص"؛
 اشمل "Srl/WString"؛
 
 @دمج وحدة Srl
-- 
2.43.0


From 3e362e0385166b402b736ce4f57e64db2ef3fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 56/59] fix: the Arabic SPP AST file had an unfinished import
 statement that made it unusable

---
 .../\330\264\331\200\330\250\331\205.\330\243\330\263\330\263"   | 1 -
 1 file changed, 1 deletion(-)

diff --git "a/Sources/Srt/\331\206\331\200\330\250\331\205/\330\264\331\200\330\250\331\205.\330\243\330\263\330\263" "b/Sources/Srt/\331\206\331\200\330\250\331\205/\330\264\331\200\330\250\331\205.\330\243\330\263\330\263"
index 560499c..d679515 100644
--- "a/Sources/Srt/\331\206\331\200\330\250\331\205/\330\264\331\200\330\250\331\205.\330\243\330\263\330\263"
+++ "b/Sources/Srt/\331\206\331\200\330\250\331\205/\330\264\331\200\330\250\331\205.\330\243\330\263\330\263"
@@ -12,7 +12,6 @@
 
 اشمل "الـقلب/بـيانات"؛
 اشمل "نـبم"؛
-اشمل "
 اشمل "Spp/Ast"؛
 
 @دمج وحدة نـبم {
-- 
2.43.0


From a5e79e6f6ad196d208312d88c1d60bba7d892b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 57/59] fix: the Arabic name of CurlOpt.PROGRESSFUNCTION
 referred to a name that does not exist

---
 ...64\331\200\330\250\331\203\330\251.\330\243\330\263\330\263" | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git "a/Sources/Srt/\331\205\331\200\330\252\331\205/\330\264\331\200\330\250\331\203\330\251.\330\243\330\263\330\263" "b/Sources/Srt/\331\205\331\200\330\252\331\205/\330\264\331\200\330\250\331\203\330\251.\330\243\330\263\330\263"
index 062fec9..b771bbf 100644
--- "a/Sources/Srt/\331\205\331\200\330\252\331\205/\330\264\331\200\330\250\331\203\330\251.\330\243\330\263\330\263"
+++ "b/Sources/Srt/\331\205\331\200\330\252\331\205/\330\264\331\200\330\250\331\203\330\251.\330\243\330\263\330\263"
@@ -73,7 +73,7 @@
       عرف _إدراج_مجلد_فقط_: لقب CurlOpt.DIRLISTONLY؛
       عرف _تتبع_الموقع_: لقب CurlOpt.FOLLOWLOCATION؛
       عرف _وضع_: لقب CurlOpt.PUT؛
-      عرف _دالة_تقدم_: لقب CurlOpt.PROGRESSFUNCTIONP؛
+      عرف _دالة_تقدم_: لقب CurlOpt.PROGRESSFUNCTION؛
       عرف _معلومات_تقدم_: لقب CurlOpt.PROGRESSDATA؛
       عرف _محيل_تلقائي_: لقب CurlOpt.AUTOREFERER؛
       عرف _منفذ_الوسيط_: لقب CurlOpt.PROXYPORT؛
-- 
2.43.0


From 50db1b585b4a6f79d35d90506950a78336bba654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 58/59] fix: the Arabic string builder file uses the Arabic
 string class without importing it

---
 ...06\330\264\330\246_\331\206\330\265.\330\243\330\263\330\263" | 1 +
 1 file changed, 1 insertion(+)

diff --git "a/Sources/Srt/\331\205\331\200\330\252\331\205/\331\205\331\200\331\206\330\264\330\246_\331\206\330\265.\330\243\330\263\330\263" "b/Sources/Srt/\331\205\331\200\330\252\331\205/\331\205\331\200\331\206\330\264\330\246_\331\206\330\265.\330\243\330\263\330\263"
index a295d5e..6d78dff 100644
--- "a/Sources/Srt/\331\205\331\200\330\252\331\205/\331\205\331\200\331\206\330\264\330\246_\331\206\330\265.\330\243\330\263\330\263"
+++ "b/Sources/Srt/\331\205\331\200\330\252\331\205/\331\205\331\200\331\206\330\264\330\246_\331\206\330\265.\330\243\330\263\330\263"
@@ -11,6 +11,7 @@
 
 اشمل "متم"؛
 اشمل "مـتم/تـطبيق"؛
+اشمل "مـتم/نـص"؛
 اشمل "Srl/StringBuilder"؛
 
 @دمج وحدة مـتم {
-- 
2.43.0


From 73e50ce575bc77bd8d85f308884d1cfebabf3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 59/59] fix: an initializer of a global variable ran again when
 it triggered another build

---
 Sources/Spp/BuildManager.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Sources/Spp/BuildManager.cpp b/Sources/Spp/BuildManager.cpp
index 483b880..84531e8 100644
--- a/Sources/Spp/BuildManager.cpp
+++ b/Sources/Spp/BuildManager.cpp
@@ -269,21 +269,19 @@ Bool BuildManager::_execute(TiObject *self, BuildSession *buildSession)
   if (ctorBuildSession == 0) ctorBuildSession = buildSession;
 
   if ((minSeverity == -1 || minSeverity > 1) && (thisMinSeverity == -1 || thisMinSeverity > 1)) {
-    // Execute constructors.
+    // Execute constructors. Each is taken out of the list before it's executed because it can trigger another execution.
     if (ctorBuildSession->getBuildType() == BuildType::JIT) {
-      for (Int index = 0; index < buildSession->getGlobalCtors()->getLength(); ++index) {
-        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::JitBuildTarget>()->execute(
-          buildSession->getGlobalCtors()->at(index).name
-        );
+      while (buildSession->getGlobalCtors()->getLength() > 0) {
+        Str name = buildSession->getGlobalCtors()->at(0).name;
+        buildSession->getGlobalCtors()->remove(0);
+        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::JitBuildTarget>()->execute(name);
       }
-      buildSession->getGlobalCtors()->clear();
     } else if (ctorBuildSession->getBuildType() == BuildType::PREPROCESS) {
-      for (Int index = 0; index < buildSession->getGlobalCtors()->getLength(); ++index) {
-        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::LazyJitBuildTarget>()->execute(
-          buildSession->getGlobalCtors()->at(index).name
-        );
+      while (buildSession->getGlobalCtors()->getLength() > 0) {
+        Str name = buildSession->getGlobalCtors()->at(0).name;
+        buildSession->getGlobalCtors()->remove(0);
+        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::LazyJitBuildTarget>()->execute(name);
       }
-      buildSession->getGlobalCtors()->clear();
     } else {
       throw EXCEPTION(InvalidArgumentException, S("buildSession"), S("Unexpected build type."));
     }
-- 
2.43.0

