From d8f49cfa75a6e602b43942f64343121fbb540cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 01/47] fix: retry a list after star from the first value
 found, not from the last

---
 pkg/items/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..dd6c9ec 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -385,7 +385,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
-- 
2.43.0


From 955a1c0f1ffd450f552c2eca36cd6f090b1e3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 02/47] fix: any or a star in a group after a star: keep its
 length, do not panic or skip

---
 pkg/items/items.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index dd6c9ec..d9f3ad7 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -458,22 +458,23 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// skip the runes required by ? and continue the star scan with the rest
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if nextItems == nil || nextItems.IsEmpty() {
 					matched = true
 					return
 				} else {
 					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
+					return matchStarItems(s, items, nextItems)
 				}
 			}
-			items = items[1:]
-			// continue
+			return matchStarItems(s, items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From da46f74e1896fc4ea414855f68ded55c0f35a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 03/47] fix: optional group at the end after a star matches any
 rest

---
 pkg/items/items.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index d9f3ad7..c5aef3b 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -424,10 +424,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 				s := s
 				if len(items) == 1 {
 					if nextItems == nil || nextItems.IsEmpty() {
-						if s == "" {
-							matched = true
-							return
-						}
+						matched = true
+						return
 					} else {
 						items, nextItems := nextItems.Next()
 						if matched, _ = matchStarItems(s, items, nextItems); matched {
-- 
2.43.0


From 48a8e34e59d4fbe77e822a8e89092d944ba333f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 04/47] fix: list with a single wildcard value is not a literal

---
 pkg/items/stringlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..c111fd8 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -226,6 +226,9 @@ func NewItemList(vals []string) (item Item, err error) {
 		if vals[0] == "" {
 			return nil, nil
 		}
+		if HasWildcard(vals[0]) {
+			return NewGroup(vals)
+		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
 		if n == len(vals[0]) {
-- 
2.43.0


From f625fc0fe790885a89bae9327d554325dc19addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 05/47] fix: max length of a chain stays unlimited after a star

---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From 88bc80d39a46341576fcd0b5fa7fef6a81a9e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 06/47] fix: U+FFFD and an invalid byte in a glob match
 themselves only (and never slice out of range)

---
 pkg/items/rune.go       | 11 ++++++-----
 pkg/items/stringlist.go |  2 +-
 pkg/items/wildcard.go   |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/items/rune.go b/pkg/items/rune.go
index fc8cea0..dbdaef0 100644
--- a/pkg/items/rune.go
+++ b/pkg/items/rune.go
@@ -51,15 +51,16 @@ func (item Rune) MaxLen() int {
 }
 
 func (item Rune) Find(s string) (index, length int, support FindFlag) {
-	c := rune(item)
-	if index = strings.IndexRune(s, c); index != -1 {
-		length = utf8.RuneLen(c)
+	// search the encoded rune: IndexRune also finds invalid bytes for utf8.RuneError
+	c := string(item)
+	if index = strings.Index(s, c); index != -1 {
+		length = len(c)
 	}
 	return
 }
 
 func (item Rune) Match(s string) (offset int, support FindFlag) {
-	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError {
+	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError || n > 1 {
 		if c == rune(item) {
 			offset = n
 		} else {
@@ -72,7 +73,7 @@ func (item Rune) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Rune) MatchLast(s string) (offset int, support FindFlag) {
-	if c, n := utf8.DecodeLastRuneInString(s); c != utf8.RuneError {
+	if c, n := utf8.DecodeLastRuneInString(s); c != utf8.RuneError || n > 1 {
 		if c == rune(item) {
 			offset = len(s) - n
 		} else {
diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index c111fd8..d428a10 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -231,7 +231,7 @@ func NewItemList(vals []string) (item Item, err error) {
 		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
-		if n == len(vals[0]) {
+		if n == len(vals[0]) && (c != utf8.RuneError || n > 1) {
 			if c <= 127 {
 				return Byte(c), nil
 			}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..741d098 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -77,7 +77,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 		v, next := utils.SplitString(s, end)
 
 		c, n := utf8.DecodeRuneInString(v)
-		if n == len(v) {
+		if n == len(v) && (c != utf8.RuneError || n > 1) {
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-- 
2.43.0


From 7d6dfeaf033f7ce591019570eae6cbcfbe60c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 07/47] fix: Byte.MatchLast returns the offset of the last byte
 and does not panic on an empty string

---
 pkg/items/byte.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..cc8e1f2 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -73,8 +73,10 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
 	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	if n < 0 || s[n] != byte(item) {
 		offset = -1
+	} else {
+		offset = n
 	}
 	return
 }
-- 
2.43.0


From 7ea72e2d1c1c9778b498ef894d1b80ec584dd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 08/47] fix: RunesRanges.EndsWith returns the offset for an
 ASCII symbol too

---
 pkg/utils/runesranges.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..c1b1ee9 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -356,7 +356,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - n
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From 0b96300933f1812b5d277dadf557e03dc2ec3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 09/47] fix: RunesRanges.IndexByte steps over an ASCII byte
 outside of the set

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index c1b1ee9..4d91980 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,6 +270,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c == utf8.RuneError {
-- 
2.43.0


From ff278625255e2c11b16d13d46b8455cf4ffdbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 10/47] fix: rune class search does not stop at an invalid byte
 or U+FFFD

---
 pkg/utils/runesranges.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 4d91980..c357d03 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -273,10 +273,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -305,10 +302,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -336,7 +330,7 @@ func (rs *RunesRanges) StartsWith(s string) (c rune, n int) {
 
 	// Unicode
 	c, n = utf8.DecodeRuneInString(s)
-	if c != utf8.RuneError && rs.ContainsUnicode(c) {
+	if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 		return
 	}
 
@@ -350,7 +344,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	}
 
 	c, n = utf8.DecodeLastRuneInString(s)
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && n < 2 {
 		return utf8.RuneError, -1
 	}
 
-- 
2.43.0


From 8e0949f570e0b52768e55317d29fc8f888cae943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 11/47] fix: IntersectGlobs compares the globs with each other

---
 pkg/items/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index f390c17..1d54e4e 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -38,7 +38,7 @@ func IntersectGlobs(globs []string) string {
 	if len(globs) == 0 {
 		return ""
 	}
-	if len(globs) == 0 {
+	if len(globs) == 1 {
 		if pos := IndexWildcard(globs[0]); pos == -1 {
 			return globs[0]
 		} else {
@@ -57,7 +57,7 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[0][pos:])
+			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
 			if c0 != c {
 				return globs[0][:pos]
 			}
-- 
2.43.0


From fbf474a4976c28bc4ab2c3a9aa045fd07da82219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 12/47] fix: GlobTree: try every position of a list value after
 a star

---
 pkg/items/tree.go | 83 +++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 50 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..341c5ad 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -231,48 +231,37 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 				}
 			}
 
-			for {
-				var offsetN int
-				offset := -1
-				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
-						offset = offsetN
+			for i := 0; i < list.Len(); i++ {
+				// try all positions of the value
+				s := s
+				for {
+					if offset, length = list.FindN(s, i); offset == -1 {
+						break
 					}
-					s := s[offsetN+length:]
+					next := s[offset+length:]
 
-					if s == "" {
+					if next == "" {
 						if item.Terminate {
 							store.Store(item.Query, item.Index)
 							matched++
 						}
 					}
 					for i := 0; i < len(item.Childs); i++ {
-						if n, _ := item.Childs[i].match(s, store); n > 0 {
+						if n, _ := item.Childs[i].match(next, store); n > 0 {
 							matched += n
 						}
 					}
+
+					s = s[offset:]
+					// shift to one rune from the found value
+					if _, length = utf8.DecodeRuneInString(s); length < 1 {
+						break
+					}
+					s = s[length:]
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
-				if _, length = utf8.DecodeRuneInString(s); length < 1 {
-					break
-				}
-				s = s[length:]
-			}
-			if offset == -1 {
-				break
 			}
-			s = s[offset:]
-			if _, length = utf8.DecodeRuneInString(s); length < 1 {
-				break
-			}
-			s = s[length:]
 
+			return
 		case FindGroup:
 			group := item.Item.(*Group)
 
@@ -519,35 +508,29 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 				}
 			}
 
-			for {
-				var offsetN int
-				offset := -1
-				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						// TODO: skip on next scan ?
-						continue
-					}
-					if offset == -1 || offset < offsetN {
-						offset = offsetN
+			for i := 0; i < list.Len(); i++ {
+				// try all positions of the value
+				s := s
+				for {
+					if offset, length = list.FindN(s, i); offset == -1 {
+						break
 					}
-					s := s[offsetN+length:]
+					next := s[offset+length:]
 					if len(items) == 1 {
-						if n := item.matchNextTreeItem(s, store); n > 0 {
+						if n := item.matchNextTreeItem(next, store); n > 0 {
 							matched += n
 						}
-					} else if n, _ := item.matchItemsInTree(s, items[1:], store); n > 0 {
+					} else if n, _ := item.matchItemsInTree(next, items[1:], store); n > 0 {
 						matched += n
 					}
+
+					s = s[offset:]
+					// shift to one rune from the found value
+					if _, length = utf8.DecodeRuneInString(s); length < 1 {
+						break
+					}
+					s = s[length:]
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
-				// shift to one rune from minimal offset
-				if _, length = utf8.DecodeRuneInString(s); length < 1 {
-					break
-				}
-				s = s[length:]
 			}
 
 			return
-- 
2.43.0


From d857660d2090c72b0784b835fd3de54a1e1b0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 13/47] fix: GlobTree: a terminated node is reported even if it
 has childs

---
 pkg/items/tree.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 341c5ad..508f84a 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,17 +155,13 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		for i := 0; i < len(item.Childs); i++ {
+			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
+				matched += n
 			}
 		}
 	default:
@@ -204,14 +200,13 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
+			}
+			for i := 0; i < len(item.Childs); i++ {
+				if n, _ := item.Childs[i].match(s, store); n > 0 {
+					matched += n
 				}
 			}
 		case FindList:
-- 
2.43.0


From 002445ca8473ca0db4590dfbb5b496e6fd39f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 14/47] fix: GlobTree: any or a star after a star: keep its
 length, do not panic, report a terminated node

---
 pkg/items/tree.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 508f84a..0cf89f8 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -289,13 +289,16 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+		case FindForwarded, FindStar:
+			// skip the runes required by ? and continue the star scan with the rest
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
@@ -558,9 +561,13 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// skip the runes required by ? and continue the star scan with the rest
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From 3d050814b25ed5d486eeb2d8f26aba33b167b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 15/47] fix: GlobTree: no endless scan of a group value with a
 star inside ({a*b,c})

---
 pkg/items/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 0cf89f8..be6b104 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -435,6 +435,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From 6eeff189a55bddbd65f6c788e80ab71b9e89973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 16/47] fix: GlobTree matches a glob without wildcards

---
 glob/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..927c9b2 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -53,6 +53,17 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
+	if len(gg.Items) == 0 {
+		// string without wildcards
+		node := items.NewString(gg.Node)
+		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
+		if newItem == nil {
+			newItem = &items.TreeItem{Item: node}
+			treeItem.Childs = append(treeItem.Childs, newItem)
+		}
+		treeItem = newItem
+	}
+
 	treeItem.Terminate = true
 	treeItem.Query = gg.Node
 	treeItem.Index = index
-- 
2.43.0


From 5cd9b2b25265f7591ff4def8089ef77407d02bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/47] fix: AddGlob registers and returns the normalized glob

---
 gglob/gtree.go | 7 ++++---
 glob/tree.go   | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..22eacf7 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,15 +222,16 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if exist, ok := gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
 
 	addGGlob(gtree.Root, g, index)
 
-	gtree.Globs[g.Node] = index
-	if normalized != g.Node {
+	gtree.Globs[g.Glob] = index
+	if normalized != g.Glob {
 		gtree.Globs[normalized] = index
 	}
 	gtree.GlobsIndex[index] = normalized
diff --git a/glob/tree.go b/glob/tree.go
index 927c9b2..1704250 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -155,7 +155,8 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if exist, ok := gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = ErrIndexDup
 		return
 	}
-- 
2.43.0


From bdde34cda55045d6833cdea2f0888e145918e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 18/47] fix: GGlob: path length includes dots, max length of
 the glob does not

---
 gglob/gglob.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..e03b72b 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -30,7 +30,8 @@ func (g *GGlob) Match(path string) (matched bool) {
 	if len(path) < g.MinLen {
 		return
 	}
-	if g.MaxLen > 0 && len(path) > g.MaxLen {
+	// MaxLen is a sum for the parts, without dots
+	if g.MaxLen > 0 && len(path) > g.MaxLen+len(g.Parts)-1 {
 		return
 	}
 
@@ -61,7 +62,8 @@ func (g *GGlob) MatchByParts(parts []string, length int) (matched bool) {
 		if length < g.MinLen {
 			return
 		}
-		if g.MaxLen > 0 && length > g.MaxLen {
+		// MaxLen is a sum for the parts, without dots
+		if g.MaxLen > 0 && length > g.MaxLen+len(g.Parts)-1 {
 			return
 		}
 	}
-- 
2.43.0


From 93801889bd8bc04e9cc8625474acbbdf5eceb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 19/47] fix: PathSplitB rejects an empty last level

---
 gglob/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..c922ca5 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,8 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	for next := true; next; {
+		part, path, next = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From 1dbe09757f33106c090426c0355ccf8bb6861eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 20/47] fix: gglob.Parse rejects an empty last level

---
 gglob/gglob.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index e03b72b..c711a7a 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -90,8 +90,8 @@ func Parse(s string) (gg *GGlob, err error) {
 	gg = &GGlob{Glob: s, Parts: make([]*glob.Glob, 0, level)}
 
 	nextParts := s
-	for nextParts != "" {
-		part, nextParts, _ = strings.Cut(nextParts, ".")
+	for next := level > 0; next; {
+		part, nextParts, next = strings.Cut(nextParts, ".")
 		if part == "" {
 			err = items.ErrNodeEmpty{s}
 			return
-- 
2.43.0


From 3eb80715bc24bd64afad3c9c6c38cb7b13a68762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 21/47] fix: seriesByTag condition with a blank key is invalid

---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..a3dab18 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -257,6 +257,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From a740589a341883fbda37e934c0ed05cf47aa5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 22/47] fix: TaggedTermList.MatchByTags goes on from the same
 tag after a != key that does not exist

---
 gtags/tagged_term.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index a3dab18..bc4a799 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -140,30 +140,20 @@ func (terms TaggedTermList) MatchByTagsMap(tags map[string]string) bool {
 // MatchByPath match against tags slice
 func (terms TaggedTermList) MatchByTags(tags []Tag) bool {
 	var i int
-LOOP:
 	for _, term := range terms {
-		if len(tags) == i {
+		// scan for tag
+		pos := i
+		for pos < len(tags) && tags[pos].Key != term.Key {
+			pos++
+		}
+		if pos == len(tags) {
 			if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 				// != and ~=! can be skiped and key can not exist
-				continue LOOP
+				continue
 			}
 			return false
 		}
-		if term.Key != tags[i].Key {
-			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
-					break
-				}
-			}
-			if len(tags) == i {
-				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
-					// != and ~=! can be skiped and key can not exist
-					continue LOOP
-				}
-				return false
-			}
-		}
+		i = pos
 		if !term.Match(tags[i].Value) {
 			return false
 		}
-- 
2.43.0


From 3d9775783c37db0878617116ea6d454e6c229332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 23/47] fix: GTagsTree checks queries with != only against an
 empty tags set

---
 gtags/items.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4bb5e3c..4ebfbe3 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -253,10 +253,6 @@ func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (la
 }
 
 func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	for i := 0; i < len(item.Items); i++ {
 		v, ok := tags[item.Items[i].Key]
 		if ok {
@@ -303,10 +299,6 @@ func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store
 }
 
 func (item *TaggedItem) MatchByTags(tags []Tag, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	matchPos := 0
 
 	for i := 0; i < len(item.Items); i++ {
-- 
2.43.0


From bf84679e5e9856108a2bb774936304040530d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 24/47] fix: GTagsTree counts seriesByTag() and matches it by
 tags map too

---
 gtags/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..2bfac02 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -117,12 +117,17 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	return matched + gtree.Root.MatchByTagsMap(tags, store)
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	return matched + gtree.Root.MatchByTags(tags, store)
 }
-- 
2.43.0


From 0aed3b0f549e848ee68eb8d47c59e836e9faa754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 25/47] fix: AddTerms terminates the added query and returns it
 normalized

---
 gtags/tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index 2bfac02..c432929 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,7 +95,8 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	if exist, ok := gtree.QueryIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
@@ -105,7 +106,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From c76ce92ace57bffb64f791fcf84fb91e999eebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 26/47] fix: normalized seriesByTag quotes an expression with '
 inside by another quote

---
 gtags/tagged_term.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bc4a799..85f3e26 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -108,9 +108,13 @@ func (t TaggedTermList) WriteString(buf *strings.Builder) {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
-		buf.WriteByte('\'')
+		quote := byte('\'')
+		if strings.IndexByte(t[i].Key, quote) != -1 || strings.IndexByte(t[i].Value, quote) != -1 {
+			quote = '"'
+		}
+		buf.WriteByte(quote)
 		t[i].WriteString(buf)
-		buf.WriteByte('\'')
+		buf.WriteByte(quote)
 	}
 	buf.WriteString(")")
 }
-- 
2.43.0


From 3da9d48979c0d3d173c3ab2812e52acbe77e27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 27/47] fix: normalized seriesByTag keeps = and != with a value
 started with ~

---
 gtags/tagged_term.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 85f3e26..37a1533 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -42,6 +42,10 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
+	if (t.Op == TaggedTermEq || t.Op == TaggedTermNe) && strings.HasPrefix(t.Value, "~") {
+		// not a regexp
+		buf.WriteByte(' ')
+	}
 	buf.WriteString(t.Value)
 }
 
-- 
2.43.0


From a951982457451176a4f7731455ff6c8c816689c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 28/47] fix: QueryTo and PathTo keep the last symbol after an
 escaped one

---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From 9235cbd5c9e053ac65d50d8a2dfb170ec60aec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 29/47] fix: ASCIISet string forms keep the symbol 127

---
 pkg/utils/asciiset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..bb33148 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -34,6 +34,10 @@ func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 		}
 		if start != 0 {
 			buf.WriteByte(start)
+			if start < 127 {
+				buf.WriteByte('-')
+				buf.WriteByte(127)
+			}
 		}
 	}
 }
@@ -78,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 1; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 442f713f1fa881388163f55189b6ebccbf0cf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 30/47] fix: Expand keeps the brackets of an invalid runes
 range

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From f7f997f6f7af6ccc4f8c5caf62bf66ef9db8accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 31/47] fix: Expressions.Expand can be repeated after a try

---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..faf1e57 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -158,6 +158,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From cf30511dce3b21827a9c6bc2ad3411369c1425bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 32/47] fix: Expand restricted by max/depth does not allocate
 (or overflow) for all combinations

---
 expand/expand.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index faf1e57..06c328a 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -14,6 +14,9 @@ var (
 	asciiSet = utils.MakeASCIISetMust("[]{}*?")
 )
 
+// maxPrealloc is a limit for results prealloc
+const maxPrealloc = 1024
+
 // Expand takes the string contains the shell expansion expression and returns list of strings after they are expanded (from begin).
 //
 // Argument max for restict max expanded results, > 0 - restuct  max expamnded results, 0 - disables expand, -1 - unlimited, etc.
@@ -91,6 +94,11 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 		if e.exps[i].typ == expWildcard {
 			break
 		}
+		if count > maxPrealloc {
+			// real count can be restricted by max/depth/try, don't overflow
+			count = maxPrealloc
+			break
+		}
 	}
 
 	result := make([]string, 0, count)
-- 
2.43.0


From 5a9e4fac25abcbd2d2681b72ff63fc5b2225a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 33/47] fix: a class of one wildcard symbol ([*]) is not a
 wildcard in the normalized glob

---
 pkg/items/wildcard.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index 741d098..d7a6db1 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -30,7 +30,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, next, nil
 		}
 		if len(runes.UnicodeRanges) == 0 {
-			if n == 1 {
+			if n == 1 && !HasWildcard(string(c)) {
 				return Byte(c), next, nil
 			}
 		}
-- 
2.43.0


From 3fb514903c06dc75c93b9006fbea6683d8c2f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 34/47] fix: malformed values of a list with * are rejected
 ({*,{})

---
 pkg/items/group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 17c7bda..9e3e162 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -84,12 +84,14 @@ func (item *Group) IsOptional() bool {
 
 func NewGroup(vals []string) (item Item, err error) {
 	items := make([]Item, 0, len(vals))
+	star := false
 	for i := 0; i < len(vals); i++ {
 		if HasWildcard(vals[i]) {
 			v := vals[i]
 
 			if v == "*" {
-				return Star(0), nil
+				// any string, but the other values must be valid
+				star = true
 			} else if v == "?" {
 				items = append(items, Any(1))
 			} else {
@@ -114,6 +116,9 @@ func NewGroup(vals []string) (item Item, err error) {
 			items = append(items, NewString(vals[i]))
 		}
 	}
+	if star {
+		return Star(0), nil
+	}
 	if len(items) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 5ddab2b89cd24d9629edd31fdeb18b1d81135375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 35/47] fix: Expand does not panic on a glob of empty brackets
 only ({})

---
 expand/expand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expand.go b/expand/expand.go
index 06c328a..9c4d0b6 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -250,7 +250,7 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
-	if e.exps[last].typ == expWildcard {
+	if last >= 0 && e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
 		if pos < len(s) {
-- 
2.43.0


From 2e90470400732fc79a961c903330e46672a50e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 36/47] fix: WriteRandom of a class writes one of its symbols
 (not all of them, no panic without non-ASCII ones)

---
 pkg/items/runesranges.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 6ebefdf..dc9a7bd 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -28,15 +28,21 @@ func (item *RunesRanges) Equal(a Item) bool {
 }
 
 func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
-	if !item.ASCII.IsEmpty() {
-		var i byte
-		for i = 1; i < 128; i++ {
-			if item.ASCII.Contains(i) {
-				buf.WriteByte(i)
-			}
+	ascii := make([]byte, 0, 128)
+	for i := byte(0); i < 128; i++ {
+		if item.ASCII.Contains(i) {
+			ascii = append(ascii, i)
 		}
 	}
-	buf.WriteRune(item.UnicodeRanges[rand.Intn(len(item.UnicodeRanges))].First)
+	n := len(ascii) + len(item.UnicodeRanges)
+	if n == 0 {
+		return
+	}
+	if n = rand.Intn(n); n < len(ascii) {
+		buf.WriteByte(ascii[n])
+	} else {
+		buf.WriteRune(item.UnicodeRanges[n-len(ascii)].First)
+	}
 }
 
 func (item *RunesRanges) WriteString(buf *strings.Builder) string {
-- 
2.43.0


From 5e543cc32ecf2ed33ef9d38067c1f6fe222bbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 37/47] fix: Glob.WriteRandom writes the prefix and the suffix
 of the glob

---
 glob/glob.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..39a80b3 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -25,9 +25,11 @@ func (g *Glob) WriteRandom(buf *strings.Builder) {
 	if len(g.Items) == 0 {
 		buf.WriteString(g.Node)
 	} else {
+		buf.WriteString(g.Prefix)
 		for i := 0; i < len(g.Items); i++ {
 			g.Items[i].WriteRandom(buf)
 		}
+		buf.WriteString(g.Suffix)
 	}
 
 }
-- 
2.43.0


From 5b20da2ec781f0b9a3a26c5466a30475e768dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 38/47] fix: NewAllStore starts without a lowest index, as
 NewMinStore does

---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 6aee8f4ed5a68cb72478257e6aa9278e9e294b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 39/47] fix: an escape or + just after a broken escape is
 unescaped too (%+, %%41)

---
 pkg/escape/unescape.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/escape/unescape.go b/pkg/escape/unescape.go
index 632169c..cad6587 100644
--- a/pkg/escape/unescape.go
+++ b/pkg/escape/unescape.go
@@ -40,19 +40,15 @@ func unescape(s string, first int, sb *strings.Builder) string {
 	sb.Grow(pos + len(s))
 	sb.WriteString(s[:first])
 
-LOOP:
 	for i := first; i < len(s); i++ {
 		switch s[i] {
 		case '%':
-			if len(s) < i+3 {
-				sb.WriteString(s[i:])
-				break LOOP
-			}
 			if !isPercentEscape(s, i) {
-				sb.WriteString(s[i : i+3])
-			} else {
-				sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
+				// not an escape, but the next one can start just after
+				sb.WriteByte('%')
+				continue
 			}
+			sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
 			i += 2
 		case '+':
 			sb.WriteByte(' ')
-- 
2.43.0


From 4a8cb40c5e2f35e438558bc25e4d597ae9951c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 40/47] fix: a class and an ASCII set keep the symbol NUL
 (count, string forms, merged ranges)

---
 expand/runes.go          |  6 +++---
 pkg/utils/asciiset.go    | 28 ++++++++++++++--------------
 pkg/utils/runesranges.go |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index e6edd8f..4e60ec4 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -35,7 +35,7 @@ func runesRangeMerge(rs []runes) []runes {
 					}
 					// skip to next, merged
 					i++
-					rs[i].stop = 0
+					rs[i].stop = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func runesRangeMerge(rs []runes) []runes {
 
 		if pos != j {
 			rs[j] = rs[pos]
-			rs[pos].stop = 0
+			rs[pos].stop = -1
 		}
-		if rs[j].stop != 0 {
+		if rs[j].stop != -1 {
 			j++
 		}
 	}
diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index bb33148..48b6c32 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -17,23 +17,23 @@ type ASCIISet [8]uint32
 
 func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 	if !ac.IsEmpty() {
-		var start, i byte
-		for i = 1; i <= 127; i++ {
-			if ac.Contains(i) {
-				if start == 0 {
+		start := -1
+		for i := 0; i <= 127; i++ {
+			if ac.Contains(byte(i)) {
+				if start == -1 {
 					start = i
 				}
-			} else if start != 0 {
-				buf.WriteByte(start)
+			} else if start != -1 {
+				buf.WriteByte(byte(start))
 				if i > start+1 {
 					buf.WriteByte('-')
-					buf.WriteByte(i - 1)
+					buf.WriteByte(byte(i - 1))
 				}
-				start = 0
+				start = -1
 			}
 		}
-		if start != 0 {
-			buf.WriteByte(start)
+		if start != -1 {
+			buf.WriteByte(byte(start))
 			if start < 127 {
 				buf.WriteByte('-')
 				buf.WriteByte(127)
@@ -49,13 +49,13 @@ func (ac *ASCIISet) IsEmpty() bool {
 
 func (ac *ASCIISet) Count() (n int, first byte) {
 	if !ac.IsEmpty() {
-		var i byte = 1
+		var i byte
 		for ; i <= 127; i++ {
 			if ac.Contains(i) {
-				n++
-				if first == 0 {
+				if n == 0 {
 					first = i
 				}
+				n++
 			}
 		}
 	}
@@ -82,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i <= 127; i++ {
+	for ; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index c357d03..8dbe413 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -35,7 +35,7 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 					}
 					// skip to next, merged
 					i++
-					ranges[i].Last = 0
+					ranges[i].Last = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 
 		if pos != j {
 			ranges[j] = ranges[pos]
-			ranges[pos].Last = 0
+			ranges[pos].Last = -1
 		}
-		if ranges[j].Last != 0 {
+		if ranges[j].Last != -1 {
 			j++
 		}
 	}
-- 
2.43.0


From 17fe5f23b4b83fbb41ea4775d230cb42f4a94a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 41/47] fix: Expand of [-] gives the empty string, [-] is an
 empty class for a glob

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index 6203db9..fc8ae8a 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -136,7 +136,7 @@ func getExpression(in string) Expression {
 			return Expression{body: in}
 		}
 	case '[':
-		if len(in) == 1 {
+		if len(in) == 1 && in != "-" {
 			return Expression{body: in}
 		} else {
 			// TODO
-- 
2.43.0


From 0158ecf019b8e05f9a1e66897fde27faa5bb85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 42/47] fix: don't merge ranges of symbols over a boundary of
 the UTF-8 length, the string form can't be parsed back

---
 pkg/utils/runesranges.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 8dbe413..1222e6f 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,9 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				if ranges[pos].First == ranges[next].First || ranges[pos].Last >= ranges[next].First ||
+					// don't merge to a range between codepages, it can't be parsed back
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From 9de629650f35d0c75e16416f5fb11980870d7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 43/47] fix: Expand of a range around the surrogates doesn't
 list U+FFFD for them

---
 expand/runes.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expand/runes.go b/expand/runes.go
index 4e60ec4..a59f274 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -6,6 +6,12 @@ import (
 	"unicode/utf8"
 )
 
+// surrogates can't be encoded as UTF-8
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
 // runes generates a sequence of runes from first to second element
 type runes struct {
 	start rune
@@ -83,6 +89,11 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 						if n != cn {
 							return rs, false
 						}
+						if start < surrogateMin && c > surrogateMax {
+							// surrogates are not a symbols
+							rs = append(rs, runes{start: start, stop: surrogateMin - 1})
+							start = surrogateMax + 1
+						}
 						rs = append(rs, runes{start: start, stop: c})
 					} else {
 						return rs, false
-- 
2.43.0


From 83ff1bec17732d4ad647620b35b52bb2a0497050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 44/47] fix: U+FFFD is a symbol of a class like any other, a
 broken byte in a class adds nothing

---
 expand/expression.go     |  4 ++--
 expand/runes.go          | 27 +++++++++++++++++++--------
 pkg/utils/runesranges.go | 22 ++++++++++++++++------
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/expand/expression.go b/expand/expression.go
index fc8ae8a..cd42076 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -103,7 +103,7 @@ func (e *Expression) appendNext(out []byte) ([]byte, error) {
 		}
 	case expRunes:
 		for {
-			if c := e.runes[e.pos].next(); c == utf8.RuneError {
+			if c := e.runes[e.pos].next(); c == noRune {
 				if e.pos < len(e.runes)-1 {
 					e.pos++
 				} else {
@@ -136,7 +136,7 @@ func getExpression(in string) Expression {
 			return Expression{body: in}
 		}
 	case '[':
-		if len(in) == 1 && in != "-" {
+		if len(in) == 1 && in != "-" && in[0] < utf8.RuneSelf {
 			return Expression{body: in}
 		} else {
 			// TODO
diff --git a/expand/runes.go b/expand/runes.go
index a59f274..f546472 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -3,9 +3,13 @@ package expand
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"unicode/utf8"
 )
 
+// noRune is no symbol (U+FFFD is one)
+const noRune rune = -1
+
 // surrogates can't be encoded as UTF-8
 const (
 	surrogateMin = 0xD800
@@ -72,13 +76,20 @@ func runesRangeExpandMust(s string) (rs []runes) {
 func runesRangeExpand(s string) (rs []runes, ok bool) {
 	if len(s) > 0 {
 		rs = make([]runes, 0, len(s)+4)
-		start := utf8.RuneError
+		start := noRune
 		isRange := false
 		for i, c := range s {
+			if c == utf8.RuneError && !strings.HasPrefix(s[i:], string(c)) {
+				// a broken byte is no symbol
+				if isRange && start != noRune {
+					return rs, false
+				}
+				c = noRune
+			}
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == noRune {
 					start = c
 					isRange = false
 				} else {
@@ -98,18 +109,18 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = noRune
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != noRune {
 					rs = append(rs, runes{start: start, stop: start})
 				}
 				start = c
 			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != noRune {
+			if start != noRune {
 				rs = append(rs, runes{start: start, stop: start})
 			}
 		}
@@ -136,12 +147,12 @@ func (r *runes) reset() {
 
 func (r *runes) next() rune {
 	if r.pos == -1 {
-		return utf8.RuneError
+		return noRune
 	}
 	c := r.pos
 	if c > r.stop {
 		r.pos = -1
-		return utf8.RuneError
+		return noRune
 	}
 	r.pos++
 
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 1222e6f..c2ea1fd 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -7,6 +7,9 @@ import (
 	"unicode/utf8"
 )
 
+// noRune is no symbol (U+FFFD is one)
+const noRune rune = -1
+
 // RuneRange is a runes range
 type RuneRange struct {
 	First rune
@@ -64,13 +67,20 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 		if len(s) == 0 {
 			return rs, true
 		}
-		start := utf8.RuneError
+		start := noRune
 		isRange := false
 		for i, c := range s {
+			if c == utf8.RuneError && !strings.HasPrefix(s[i:], string(c)) {
+				// a broken byte is no symbol
+				if isRange && start != noRune {
+					return rs, false
+				}
+				c = noRune
+			}
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == noRune {
 					start = c
 					isRange = false
 				} else {
@@ -98,11 +108,11 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = noRune
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != noRune {
 					if start <= 127 {
 						rs.ASCII.Add(byte(start))
 						rs.setSizes(1)
@@ -114,8 +124,8 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 				start = c
 			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != noRune {
+			if start != noRune {
 				if start <= math.MaxInt8 {
 					rs.ASCII.Add(byte(start))
 					rs.setSizes(1)
-- 
2.43.0


From 277ea4a70751a29da587c00a1a54514538ccf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 45/47] fix: Expand keeps a class with a range over brackets or
 wildcards, these mean something else outside of it

---
 expand/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expand/expression.go b/expand/expression.go
index cd42076..749c049 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -148,6 +148,14 @@ func getExpression(in string) Expression {
 			if len(rs) == 0 {
 				return Expression{body: ""}
 			}
+			for _, r := range rs {
+				for c := r.start; c <= r.stop && c < utf8.RuneSelf; c++ {
+					if asciiSet.Contains(byte(c)) {
+						// like [Z-a] or [)-+], a bracket or a wildcard has another meaning outside of a class
+						return Expression{typ: expWildcard, body: orig}
+					}
+				}
+			}
 			return Expression{typ: expRunes, body: orig, runes: rs}
 		}
 	default:
-- 
2.43.0


From 97d83caad8baf391bb208094eed241db89cd94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 46/47] fix: the common start of globs doesn't end before
 U+FFFD or a broken byte

---
 pkg/items/utils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index 1d54e4e..24f4745 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -48,8 +48,11 @@ func IntersectGlobs(globs []string) string {
 	pos := 0
 	for {
 		c0, n := utf8.DecodeRuneInString(globs[0][pos:])
+		if n == 0 {
+			return globs[0]
+		}
 		switch c0 {
-		case utf8.RuneError, '[', ']', '{', '}', '*', '?':
+		case '[', ']', '{', '}', '*', '?':
 			return globs[0][:pos]
 		}
 		for i := 1; i < len(globs); i++ {
@@ -57,12 +60,9 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
-			if c0 != c {
-				return globs[0][:pos]
-			}
-			switch c {
-			case utf8.RuneError, '[', ']', '{', '}', '*', '?':
+			c, size := utf8.DecodeRuneInString(globs[i][pos:])
+			// U+FFFD and broken bytes are symbols too
+			if c0 != c || n != size || globs[0][pos] != globs[i][pos] {
 				return globs[0][:pos]
 			}
 		}
-- 
2.43.0


From e4b30aebd8cfb4fed7be2af921700c724982b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 47/47] fix: the error for a tag without = names the tag

---
 gtags/tagged_term.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 37a1533..5a9939e 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -318,14 +318,14 @@ func GraphitePathTagsMap(path string) (tags map[string]string, err error) {
 	tags = make(map[string]string)
 	tags["__name__"] = escape.Unescape(name)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	for args != "" {
 		if k, v, args, ok = GraphiteNextTag(args); ok {
 			key := escape.Unescape(k)
 			tags[key] = escape.Unescape(v)
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
@@ -343,14 +343,14 @@ func GraphitePathTagsMapB(path string, tags map[string]string) (err error) {
 	}
 	tags["__name__"] = escape.Unescape(name)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	for args != "" {
 		if k, v, args, ok = GraphiteNextTag(args); ok {
 			key := escape.Unescape(k)
 			tags[key] = escape.Unescape(v)
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
@@ -366,14 +366,14 @@ func GraphitePathTags(path string) (tags []Tag, err error) {
 	tagsCount := strings.Count(args, ";") + 2
 	tags = make([]Tag, 0, tagsCount)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	tags = append(tags, Tag{Key: "__name__", Value: escape.Unescape(name)})
 	for args != "" {
 		if k, v, args, ok = GraphiteNextTag(args); ok {
 			tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
@@ -410,14 +410,14 @@ func PathTags(path string) (tags []Tag, err error) {
 	tagsCount := strings.Count(args, "&") + 2
 	tags = make([]Tag, 0, tagsCount)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	tags = append(tags, Tag{Key: "__name__", Value: escape.Unescape(name)})
 	for args != "" {
 		if k, v, args, ok = NextTag(args); ok {
 			tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
@@ -433,14 +433,14 @@ func PathTagsMap(path string) (tags map[string]string, err error) {
 	tags = make(map[string]string)
 	tags["__name__"] = escape.Unescape(name)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	for args != "" {
 		if k, v, args, ok = NextTag(args); ok {
 			key := escape.Unescape(k)
 			tags[key] = escape.Unescape(v)
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
@@ -458,14 +458,14 @@ func PathTagsMapB(path string, tags map[string]string) (err error) {
 	}
 	tags["__name__"] = escape.Unescape(name)
 	var (
-		kv, k, v string
+		k, v string
 	)
 	for args != "" {
 		if k, v, args, ok = NextTag(args); ok {
 			key := escape.Unescape(k)
 			tags[key] = escape.Unescape(v)
 		} else {
-			err = ErrPathInvalid{kv, "not delimited with ="}
+			err = ErrPathInvalid{k, "not delimited with ="}
 			break
 		}
 	}
-- 
2.43.0

