From 8914bb91f88da2bf984cffdafd349c6862f6da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:39 +0000
Subject: [PATCH 01/39] fix: splitting a radix node keeps the identity and the
 full path of the node

insertInternal turned the split node into the new (upper) branch and moved
its payload into a fresh node, so node handles, callbacks and TTL jobs held
for the key silently denoted the branch afterwards. The upper part's pathS
was also cut by runes instead of bytes, corrupting non-ASCII keys.
---
 radix/node.go | 63 ++++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..f6f8419 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -217,12 +217,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		cpl = base.findCommonPrefixLength(word)
 	}
 
-	if cpl < ourLen {
-		// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
-		base.split(cpl, word) // split this as 'app' and 'Z'/'le'
-		// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
-	}
-
 	if cpl < wordLen {
 		// eg: insert 'apple' into 'app'
 		if cpl > 0 {
@@ -230,6 +224,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 		matched, child := base.matchChildren(word)
 		if matched {
+			if cpl = child.findCommonPrefixLength(word); cpl < len(child.path) {
+				// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
+				child = base.split(child, cpl, word) // split this as 'app' and 'Z'/'le'
+				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
+			}
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
@@ -255,41 +254,33 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	return
 }
 
-func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
-	tip("[store/radix] split original path %q by word %q at pos %d", string(s.path), string(word), pos)
-
-	// origPath, origPathS := s.path, s.pathS
-	// if assertEnabled {
-	// 	defer func() {
-	// 		origPath, origPathS = []rune(origPathS), string(origPath)
-	// 	}()
-	// }
-
-	d := len(s.path) - pos
+// split puts a new branch node in front of 'child', which takes
+// over the first 'pos' runes of the child's path.
+//
+// The child itself keeps its identity (and so its data, meta-info
+// and all pointers held to it): it just moves down one level with
+// the rest of its path.
+func (s *nodeS[T]) split(child *nodeS[T], pos int, word []rune) (newNode *nodeS[T]) {
+	tip("[store/radix] split original path %q by word %q at pos %d", string(child.path), string(word), pos)
 	_ = word
 
 	newNode = &nodeS[T]{
-		path:        s.path[pos:],
-		pathS:       s.pathS, // [pos:], // s.pathS[len(s.pathS)-d:],
-		children:    s.children,
-		data:        s.data,
-		description: s.description,
-		comment:     s.comment,
-		tag:         s.tag,
-		nType:       s.nType,
+		path:     child.path[:pos:pos],
+		pathS:    strings.TrimSuffix(child.pathS, string(child.path[pos:])),
+		children: []*nodeS[T]{child},
+		nType:    NTBranch,
 	}
-	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
+	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS(%q) should end with path(%q)", newNode.pathS, string(newNode.path))
+
+	child.path = child.path[pos:]
+	assert(strings.HasSuffix(child.pathS, string(child.path)), "child: pathS should end with path")
 
-	s.path = s.path[:pos]
-	s.pathS = s.pathS[:len(s.pathS)-d] // s.pathS[:pos] //
-	s.children = []*nodeS[T]{newNode}
-	s.nType = NTBranch
-	s.description = ""
-	s.comment = ""
-	s.tag = nil
-	var t T
-	s.data = t
-	assert(strings.HasSuffix(s.pathS, string(s.path)), "parentNode: pathS(%q) should end with path(%q)", s.pathS, string(s.path))
+	for i, c := range s.children {
+		if c == child {
+			s.children[i] = newNode
+			break
+		}
+	}
 	return
 }
 
-- 
2.43.0


From e3b0d4356d04a300e8c05bf5700a7cdc63c273ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:49 +0000
Subject: [PATCH 02/39] fix: a value set on an existing branch node makes it a
 leaf with data

Set("a.b.c") followed by Set("a.b") left a.b flagged as a branch: it was
not found by lookups and omitted by extraction.
---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index f6f8419..41e11d4 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -245,7 +245,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTData
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From cd77b3718f68a19945fb1e6cde45ab41efae0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 03/39] fix: SetEx invokes its callback exactly once

It was invoked once per tree level on nested inserts, and never for the
first key of an empty tree.
---
 radix/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 41e11d4..4828713 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -207,6 +207,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
 			node = base.insertAsLeaf(word, fullPath, data)
+			if cb != nil {
+				cb(fullPath, nil, node, trie)
+			}
 			return
 		}
 	}
@@ -230,7 +233,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
 			}
 			var n Node[T]
-			n, oldData = child.insert(word, fullPath, data, trie, cb)
+			n, oldData = child.insert(word, fullPath, data, trie, nil) // cb will be called once, at the outermost level
 			if nn, ok := n.(*nodeS[T]); ok {
 				node = nn
 				if cb != nil {
-- 
2.43.0


From 6fa1198f511c483b2d6dee0ad3015e57eb6d90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:46 +0000
Subject: [PATCH 04/39] fix: match route patterns by segment and prefer the
 more specific pattern

matchR used one index for the pattern and for the looked-up path, so whether
a parameter followed by more segments matched depended on the length of the
value (/app/:client/tokens/:token was not found for short values), and the
first inserted child won, so that /blog/:y shadowed /blog/list. Parameters
bound along an abandoned alternative were left in the kvpair too.
---
 radix/node.go | 200 +++++++++++++++++++-------------------------------
 radix/trie.go |  14 +++-
 2 files changed, 89 insertions(+), 125 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 4828713..e649825 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -7,7 +7,6 @@ import (
 	"time"
 
 	"github.com/hedzr/evendeep"
-	logz "github.com/hedzr/logg/slog"
 )
 
 type nodeType int
@@ -314,150 +313,103 @@ func (s *nodeS[T]) matchChildren(word []rune) (matched bool, child *nodeS[T]) {
 	return
 }
 
-func extractor(from, to int, src, piece []rune, delimiter rune) (ret string, pos int, end bool) {
-	j := 0
-	for i := from; i < to; j++ {
-		if src[i] == delimiter {
-			ret, pos = string(piece[:j]), i
-			break
-		}
-		piece[j] = src[i]
-		i++
-		if i == to {
-			ret, pos, end = string(piece[:j+1]), i, true
-		}
+// extractor retrieves a segment (up to a delimiter or the end) from src.
+func extractor(from int, src []rune, delimiter rune) (ret string, pos int) {
+	pos = from
+	for pos < len(src) && src[pos] != delimiter {
+		pos++
 	}
-	return
+	return string(src[from:pos]), pos
 }
 
 // search node by dotted path key with RecursiveMode.
 func (s *nodeS[T]) search(mctx *matchCtx, word []rune, lastRuneIsDelimiter bool, parentNode *nodeS[T], kvpair KVPair) (matched, partialMatched bool, child, parent *nodeS[T]) { //nolint:revive
-	matched, partialMatched, child, parent = s.matchR(mctx, word, lastRuneIsDelimiter, parentNode, kvpair)
+	mctx.binds = mctx.binds[:0]
+	matched, partialMatched, child, parent = s.matchR(mctx, word, lastRuneIsDelimiter, parentNode)
+	if matched && mctx.inside > 0 && (mctx.inside+1 < len(child.path) || !child.endsWith(mctx.delimiter)) {
+		matched, partialMatched = false, true
+	}
+	if matched {
+		mctx.commit(kvpair)
+	}
 	return
 }
 
 // matchR matches a path by walking child nodes recursively.
-func (s *nodeS[T]) matchR(mctx *matchCtx, word []rune, lastRuneIsDelimiter bool, parentNode *nodeS[T], kvpair KVPair) (matched, partialMatched bool, child, parent *nodeS[T]) { //nolint:revive
-	wl, l := len(word), len(s.path)
-	if wl == 0 {
-		return true, false, s, parentNode
-	}
-
-	// dm: delimiter just matched?
-	// base: the working node ptr
-	base, srcMatchedL, dstMatchedL, minL, maxL := s, 0, 0, min(l, wl), max(l, wl)
-masterLoop:
-	for ; srcMatchedL < minL; srcMatchedL++ {
-		ch := base.path[srcMatchedL]
-		if ch1 := word[srcMatchedL]; ch == ch1 {
+//
+// The idents in a pattern (":id" and "*rest") match a whole segment
+// (or the rest of the path), at the beginning of a segment only. A
+// literal child is always preferred to ":id", which is preferred to
+// "*rest", no matter in which order they were inserted.
+func (s *nodeS[T]) matchR(mctx *matchCtx, word []rune, lastRuneIsDelimiter bool, parentNode *nodeS[T]) (matched, partialMatched bool, child, parent *nodeS[T]) { //nolint:revive
+	mctx.inside = 0
+
+	// si, di: the indexes to s.path and word. They advance differently on matching an ident.
+	si, di, l, wl := 0, 0, len(s.path), len(word)
+	for si < l && di < wl {
+		ch := s.path[si]
+		if ch == word[di] {
 			lastRuneIsDelimiter = ch == mctx.delimiter
-			continue // first comparing loop, assume the index to base.path and word are both identical.
+			si, di = si+1, di+1
+			continue
 		}
 
-		dstMatchedL = srcMatchedL // sync the index now
-
-		// if partial matched,
-		if srcMatchedL < l {
-			if srcMatchedL < wl {
-				var id, val string
-				var srcEnd, dstEnd bool
-			retriever:
-				if lastRuneIsDelimiter {
-					// matching "/*filepath"
-					if ch == '*' {
-						piece := make([]rune, maxL)
-						id, srcMatchedL, srcEnd = extractor(srcMatchedL+1, l, base.path, piece, mctx.delimiter)
-						if !srcEnd {
-							logz.Warn("[matchR] invalid wildcard matching rule, it can only at end of the rule", "id", id, "srcMatchedL", srcMatchedL)
-						}
-						val, dstMatchedL, dstEnd = string(word[dstMatchedL:]), wl, true
-						if kvpair != nil {
-							kvpair[id] = val
-						}
-						logz.Verbose("[matchR] ident matched", "ident", id, "val", val, "key-path", base.pathS, "matching", string(word))
-						// break masterLoop
-						matched, child, parent = true, base, parentNode
-						return
-					}
-					// matching "/:id/"
-					if ch == ':' {
-						// delimiter+':'+ident? | eg, matching source word "/hello/bob" on a trie-path pattern "/hello/:name"
-
-						piece := make([]rune, maxL)
-						id, srcMatchedL, srcEnd = extractor(srcMatchedL+1, l, base.path, piece, mctx.delimiter)
-						val, dstMatchedL, dstEnd = extractor(dstMatchedL, wl, word, piece, mctx.delimiter)
-						// logz.Verbose("[matchR] ident matched", "ident", id, "val", val, "key-path", base.pathS, "matching", string(word))
-						// _, _, _, _, _ = dm, srcEnd, dstEnd, srcMatchedL, dstMatchedL
-
-						if kvpair != nil {
-							kvpair[id] = val
-						}
-						if srcEnd { // s.path matched to end.
-							if dstEnd { // word matched to end.
-								matched, child, parent = true, base, parentNode
-								return
-							}
-							// not matched, break and match the rest part by looping base.children
-							break masterLoop
-						} else if !dstEnd {
-							// sub-comparing loop here,
-							for ; srcMatchedL < l && dstMatchedL < wl; srcMatchedL++ {
-								ch = base.path[srcMatchedL]
-								if ch1 := word[dstMatchedL]; ch == ch1 {
-									lastRuneIsDelimiter = ch == mctx.delimiter
-									dstMatchedL++
-									continue
-								}
-								break // not matched, break to return false, false, nil, nil
-							}
-							if srcMatchedL == l && dstMatchedL == wl {
-								matched, child, parent = true, base, parentNode
-								break masterLoop // matched ok
-							}
-							if srcMatchedL == l && dstMatchedL < wl && len(base.children) > 0 {
-								// get into and matchR with children nodes
-								partialMatched = true
-								break masterLoop
-							}
-							goto retriever // for the next id+val
-						}
-					}
-				}
-				// NOT matched and shall stop.
-				// eg: matching 'apple' on 'apk'
-				return false, false, nil, nil
-			}
-			// matched.
-			// eg: matching 'app' on 'apple', or 'apk' on 'apple'
-			return true, false, base, parentNode
+		if lastRuneIsDelimiter && ch == '*' {
+			// matching "/*filepath"
+			mctx.bind(string(s.path[si+1:]), string(word[di:]))
+			return true, false, s, parentNode
+		}
+		if lastRuneIsDelimiter && ch == ':' && word[di] != mctx.delimiter {
+			// delimiter+':'+ident? | eg, matching source word "/hello/bob" on a trie-path pattern "/hello/:name"
+			var id, val string
+			id, si = extractor(si+1, s.path, mctx.delimiter)
+			val, di = extractor(di, word, mctx.delimiter)
+			mctx.bind(id, val)
+			lastRuneIsDelimiter = false
+			continue
 		}
-	}
 
-	if srcMatchedL == l-1 && base.path[srcMatchedL] == mctx.delimiter {
-		matched, child, parent = true, base, parentNode
-	} else if minL < l && srcMatchedL == minL {
-		partialMatched, child, parent = true, base, parentNode
-	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
-		matched, child, parent = true, base, parentNode
+		// NOT matched and shall stop.
+		// eg: matching 'apple' on 'apk'
+		return false, false, nil, nil
 	}
-	if minL < wl {
-		if len(base.children) == 0 {
-			matched, partialMatched = false, true
-			return
+
+	if di == wl {
+		if si == l {
+			return true, false, s, parentNode
 		}
+		// the word ended inside this node,
+		if lastRuneIsDelimiter || s.path[si] == mctx.delimiter {
+			mctx.inside = si // eg: matching 'app' or 'app.' on 'app.debug'
+			return true, false, s, parentNode
+		}
+		return false, true, s, parentNode // eg: matching 'app' on 'apple'
+	}
 
-		// restPart := word[minL:]
-		if dstMatchedL == 0 {
-			dstMatchedL = minL
+	// this node matched, and match the rest part by looping the children
+	var inside int
+	var binds []string
+	restPart, mark := word[di:], len(mctx.binds)
+	for _, ident := range []rune{restPart[0], ':', '*'} {
+		if ident != restPart[0] && !lastRuneIsDelimiter {
+			break
 		}
-		restPart := word[dstMatchedL:]
-		for _, child = range base.children {
-			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-			if matched || partialMatched {
-				return
+		for _, ch := range s.children {
+			if ch.path[0] != ident {
+				continue
+			}
+			m, pm, c, p := ch.matchR(mctx, restPart, lastRuneIsDelimiter, s)
+			if m && mctx.inside == 0 && c.hasData() {
+				return m, pm, c, p
+			}
+			if m && !matched || pm && !matched && !partialMatched {
+				matched, partialMatched, child, parent = m, pm, c, p
+				inside, binds = mctx.inside, append([]string(nil), mctx.binds[mark:]...)
 			}
+			mctx.binds = mctx.binds[:mark]
 		}
 	}
+	mctx.inside, mctx.binds = inside, append(mctx.binds, binds...)
 	return
 }
 
diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..487066b 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -759,7 +759,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 
 func getMatchCtx(word string, delimiter rune) *matchCtx {
 	s := matchCtxPool.Get().(*matchCtx)
-	s.fullPath, s.delimiter = word, delimiter
+	s.fullPath, s.delimiter, s.inside, s.binds = word, delimiter, 0, s.binds[:0]
 	return s
 }
 func putBack(mctx *matchCtx) { matchCtxPool.Put(mctx) }
@@ -771,6 +771,18 @@ var matchCtxPool = sync.Pool{New: func() any {
 type matchCtx struct {
 	fullPath  string
 	delimiter rune
+	inside    int      // how many runes of the matched node's path were consumed if the word ended inside it (at a delimiter)
+	binds     []string // the ident and value pairs bound so far
+}
+
+func (s *matchCtx) bind(id, val string) { s.binds = append(s.binds, id, val) }
+
+func (s *matchCtx) commit(kvpair KVPair) {
+	if kvpair != nil {
+		for i := 0; i < len(s.binds); i += 2 {
+			kvpair[s.binds[i]] = s.binds[i+1]
+		}
+	}
 }
 
 type KVPair map[string]string
-- 
2.43.0


From 4761c3210ab4fe5b3575db22584f3e6c2372027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:25 +0000
Subject: [PATCH 05/39] fix: a path is found iff it is a stored key or a
 section enclosing one

The answer of Has/Query/Locate/Get depended on where the radix tree happened
to be split: a section holding a single key was not found, a mere common
prefix of some keys was found by Has, and branches left over by removals
were still found. In recursive-up mode a name which merely starts alike
stopped the climbing. GetEx now hands out the bound parameters as well.
---
 radix/node.go |  30 ++++++++++--
 radix/trie.go | 128 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 104 insertions(+), 54 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index e649825..3b92fd2 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -193,6 +193,33 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// alive checks if there is any data in this node or beneath it.
+func (s *nodeS[T]) alive() bool {
+	if s.hasData() {
+		return true
+	}
+	for _, ch := range s.children {
+		if ch.alive() {
+			return true
+		}
+	}
+	return false
+}
+
+// isSection checks if some keys continue the path of this node with
+// the delimiter.
+func (s *nodeS[T]) isSection(delimiter rune) bool {
+	if s.endsWith(delimiter) {
+		return s.alive()
+	}
+	for _, ch := range s.children {
+		if ch.StartsWith(delimiter) {
+			return ch.alive()
+		}
+	}
+	return false
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
@@ -326,9 +353,6 @@ func extractor(from int, src []rune, delimiter rune) (ret string, pos int) {
 func (s *nodeS[T]) search(mctx *matchCtx, word []rune, lastRuneIsDelimiter bool, parentNode *nodeS[T], kvpair KVPair) (matched, partialMatched bool, child, parent *nodeS[T]) { //nolint:revive
 	mctx.binds = mctx.binds[:0]
 	matched, partialMatched, child, parent = s.matchR(mctx, word, lastRuneIsDelimiter, parentNode)
-	if matched && mctx.inside > 0 && (mctx.inside+1 < len(child.path) || !child.endsWith(mctx.delimiter)) {
-		matched, partialMatched = false, true
-	}
 	if matched {
 		mctx.commit(kvpair)
 	}
diff --git a/radix/trie.go b/radix/trie.go
index 487066b..a8f7504 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -213,10 +213,11 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	node, _, partialMatched, inside := s.search(path, nil)
+	_, found := s.exists(node, partialMatched, inside)
 	state = -1
 	if found {
+		node = s.sectionNode(node, inside)
 		state = 0
 		if s.ttlpresent.CompareAndSwap(0, 1) {
 			s.ttls = newttls(s)
@@ -452,7 +453,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
+	node, _, _, _ := s.search(path, nil)
 	if ok = node != nil; ok {
 		node.description, node.comment = description, comment
 	}
@@ -466,7 +467,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
+	node, _, _, _ := s.search(path, nil)
 	if ok = node != nil; ok {
 		node.tag = tag
 	}
@@ -495,9 +496,9 @@ func (s *trieS[T]) Search(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
-	return
+	node, _, partialMatched, inside := s.search(path, nil)
+	_, found = s.exists(node, partialMatched, inside)
+	return found || node == s.root
 }
 
 // Locate checks a path if it exists.
@@ -505,10 +506,14 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched = s.search(path, kvpair)
+	var inside int
+	node, _, partialMatched, inside = s.search(path, kvpair)
 	if node != nil {
-		found = !partialMatched
-		branch = node.isBranch()
+		if branch, found = s.exists(node, partialMatched, inside); found {
+			node = s.sectionNode(node, inside)
+		} else {
+			partialMatched, branch = true, node.isBranch()
+		}
 	}
 	// found, branch = node != nil && !partialMatched, safeIsBranch(node)
 	return
@@ -535,9 +540,9 @@ func (s *trieS[T]) Has(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
-	return
+	node, _, partialMatched, inside := s.search(path, nil)
+	_, found = s.exists(node, partialMatched, inside)
+	return found || node == s.root
 }
 
 // HasPart tests if a path exists even if partial matched.
@@ -547,9 +552,9 @@ func (s *trieS[T]) HasPart(path string) (yes bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
-	yes = node != nil || partialMatched
-	if partialMatched && node != nil {
+	node, _, partialMatched, _ := s.search(path, nil)
+	yes = node != nil && (node == s.root || node.alive())
+	if partialMatched && yes {
 		yes = strings.HasPrefix(node.pathS, path)
 	}
 	return
@@ -569,8 +574,8 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	node, parent, partialMatched, inside := s.search(path, nil)
+	_, found := s.exists(node, partialMatched, inside)
 	if found {
 		if parent != nil {
 			removed = parent.remove(node)
@@ -613,15 +618,11 @@ func (s *trieS[T]) getNode(path string) (node *nodeS[T], data T, kvpair KVPair,
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, kvpair)
-	found := node != nil && !partialMatched
+	kvpair = make(KVPair)
+	node, _, partialMatched, inside := s.search(path, kvpair)
+	branch, found := s.exists(node, partialMatched, inside)
 	if found {
-		if node.isBranch() {
-			branch = true
-			if !node.endsWith(s.delimiter) {
-				found = false
-			}
-		}
+		node = s.sectionNode(node, inside)
 		if node.hasData() {
 			node.lockFor(func(n *nodeS[T]) {
 				data = node.data
@@ -641,14 +642,11 @@ func (s *trieS[T]) getNodeFast(path string) (node *nodeS[T], err error) {
 	}
 	var kvpair KVPair
 	var partialMatched bool
-	node, _, partialMatched = s.search(path, kvpair)
-	found := node != nil && !partialMatched
+	var inside int
+	node, _, partialMatched, inside = s.search(path, kvpair)
+	_, found := s.exists(node, partialMatched, inside)
 	if found {
-		if node.isBranch() {
-			if !node.endsWith(s.delimiter) {
-				found = false
-			}
-		}
+		node = s.sectionNode(node, inside)
 	}
 	err = iif(found, error(nil), error(errors.NotFound))
 	return
@@ -703,16 +701,10 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, kvpair)
-	found = node != nil && !partialMatched
+	node, _, partialMatched, inside := s.search(path, kvpair)
+	branch, found = s.exists(node, partialMatched, inside)
 	if found {
-		if node.isBranch() {
-			branch = true
-			if !node.endsWith(s.delimiter) {
-				found = false
-			}
-		}
-		if node.hasData() {
+		if inside == 0 && node.hasData() {
 			node.lockFor(func(n *nodeS[T]) {
 				data = node.data
 			})
@@ -725,20 +717,54 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	return
 }
 
+// exists interprets the results of search: it tells if a path was
+// found, as a key with its data or as a section (branch is true), which
+// is a path continued by some keys with the delimiter.
+func (s *trieS[T]) exists(node *nodeS[T], partialMatched bool, inside int) (branch, found bool) {
+	if node == nil || partialMatched {
+		return
+	}
+	if inside > 0 {
+		return true, node.alive()
+	}
+	if node.hasData() {
+		return false, true
+	}
+	return true, node.isSection(s.delimiter)
+}
+
+// sectionNode returns a node which stands for the section the
+// looked-up path denotes, even if it ended inside a (compressed) node.
+func (s *trieS[T]) sectionNode(node *nodeS[T], inside int) *nodeS[T] {
+	if inside > 0 {
+		return &nodeS[T]{
+			path:     node.path[:inside:inside],
+			pathS:    strings.TrimSuffix(node.pathS, string(node.path[inside:])),
+			children: []*nodeS[T]{node},
+		}
+	}
+	return node
+}
+
 // search node by dotted path key with RecursiveMode.
 //
 // Since v1.4.29, matchR supports look last key according to RecursiveMode.
-func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool) { //nolint:revive
-	found = s.root
+//
+// A matched path might end inside the path fragment of the found node,
+// at a delimiter. In this case inside is the length of the matched part.
+func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T], partialMatched bool, inside int) { //nolint:revive
 	mctx := getMatchCtx(word, s.delimiter)
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
-		return child, prnt, pm
+	if matched, pm, child, prnt := s.root.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
+		found, parent, partialMatched, inside = child, prnt, pm, mctx.inside
 	}
 
 	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
+		if _, ok := s.exists(found, partialMatched, inside); ok {
+			return
+		}
 		w := word
 	retry:
 		a := strings.Split(w, string(s.delimiter))
@@ -746,14 +772,14 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
-				return child, prnt, pm
+			if matched, pm, child, prnt := s.root.search(mctx, []rune(w), false, nil, kvpair); matched {
+				if _, ok := s.exists(child, pm, mctx.inside); ok {
+					return child, prnt, pm, mctx.inside
+				}
 			}
 			goto retry
 		}
 	}
-
-	found = nil
 	return
 }
 
@@ -873,7 +899,7 @@ func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
 func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T])) { //nolint:revive
 	root := s.root
 	if path != "" {
-		node, parent, partialMatched := s.search(path, nil)
+		node, parent, partialMatched, _ := s.search(path, nil)
 		if !partialMatched {
 			root = parent
 			if runes := []rune(path); runes[len(runes)-1] == s.delimiter {
-- 
2.43.0


From ad5c97c099115d16ccf807652f7e80fee43726dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:57 +0000
Subject: [PATCH 06/39] fix: Remove keeps the keys which only share leading
 characters with the removed one

Remove("app") also dropped "apple" if it was stored beneath node 'app' in
the radix tree.
---
 radix/node.go | 27 +++++++++++++++++++++++++++
 radix/trie.go |  3 +++
 2 files changed, 30 insertions(+)

diff --git a/radix/node.go b/radix/node.go
index 3b92fd2..62d99d1 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -179,6 +179,33 @@ func (s *nodeS[T]) endsWith(ch rune) bool { //nolint:revive
 // 	return s.path[len(s.path)-1] == ch
 // }
 
+// keepSiblings moves the children which are not beneath this node by
+// delimiter (eg: 'apple' for node 'app') to a new branch node, which
+// is put into parent at the position of this node. So this node can be
+// removed with its own subtree only.
+func (s *nodeS[T]) keepSiblings(parent *nodeS[T], delimiter rune) {
+	var own, others []*nodeS[T]
+	for _, ch := range s.children {
+		if ch.StartsWith(delimiter) {
+			own = append(own, ch)
+		} else {
+			others = append(others, ch)
+		}
+	}
+	if len(others) == 0 {
+		return
+	}
+
+	s.children = own
+	for i, c := range parent.children {
+		if c == s {
+			parent.children[i] = &nodeS[T]{path: s.path, pathS: s.pathS, children: others, nType: NTBranch}
+			parent.children = append(parent.children, s) // to be removed by caller
+			break
+		}
+	}
+}
+
 func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	if item == nil {
 		return
diff --git a/radix/trie.go b/radix/trie.go
index a8f7504..7543855 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -578,6 +578,9 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	_, found := s.exists(node, partialMatched, inside)
 	if found {
 		if parent != nil {
+			if inside == 0 && !node.endsWith(s.delimiter) {
+				node.keepSiblings(parent, s.delimiter)
+			}
 			removed = parent.remove(node)
 			if removed {
 				nodeRemoved, nodeParent = node, parent
-- 
2.43.0


From 92942c81cc0dfee494c0e41b34afbd367901e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:06 +0000
Subject: [PATCH 07/39] fix: a duplicated node carries description, comment and
 tag

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 62d99d1..fd36380 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -555,9 +555,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From 250375914d9744767d802907121be8db34cd847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:15 +0000
Subject: [PATCH 08/39] fix: SetNode sets the tag too

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index 7543855..18f5dce 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -422,6 +422,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		node.description = descriptionAndComments[0]
 		node.comment = strings.Join(descriptionAndComments[1:], "\n")
 	}
+	node.tag = tag
 	ret, oldData = node, old
 	return
 }
-- 
2.43.0


From 1d88f846958422c6bc161389b9317ab58008c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 09/39] fix: SetComment and SetTag only touch an existing key

A partially matched path changed the meta-info of another key and reported
success.
---
 radix/trie.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 18f5dce..830e360 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -454,8 +454,9 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched, inside := s.search(path, nil)
+	branch, found := s.exists(node, partialMatched, inside)
+	if ok = found && !branch; ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -468,8 +469,9 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched, inside := s.search(path, nil)
+	branch, found := s.exists(node, partialMatched, inside)
+	if ok = found && !branch; ok {
 		node.tag = tag
 	}
 	return
-- 
2.43.0


From dba6fa230b917c199885dabe6f2baebd44c5d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:07 +0000
Subject: [PATCH 10/39] fix: Update keeps the data of an existing node

It cleared the data before invoking the callback, so that updating the tag
or the comment of a key lost its value.
---
 radix/trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index 830e360..24d865d 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -444,6 +444,9 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 	}
 	var v T
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
+	if data, ok := old.(T); ok {
+		node.data = data // keep the data of an existing node, it's up to cb
+	}
 	cb(node, old)
 }
 
-- 
2.43.0


From c696faf9198bb48641d1620a6fa522070091a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 11/39] fix: a key with spaces can be looked up by the name it
 was set with

Set saves spaces as dashes, but lookups, SetEx, SetNode, SetEmpty and Update
did not know about that.
---
 radix/trie.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 24d865d..32fda3f 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -390,10 +390,16 @@ func (s *trieS[T]) Set(path string, data T) (node Node[T], oldData any) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	path = normalizeKey(path)
+	return s.root.insert([]rune(path), path, data, s, nil)
+}
+
+// normalizeKey: the spaces in a key will be saved as dashes.
+func normalizeKey(path string) string {
 	if strings.Contains(path, " ") {
 		path = strings.ReplaceAll(path, " ", "-")
 	}
-	return s.root.insert([]rune(path), path, data, s, nil)
+	return path
 }
 
 type OnSetEx[T any] func(path string, oldData any, node Node[T], trie Trie[T])
@@ -402,6 +408,7 @@ func (s *trieS[T]) SetEx(path string, data T, cb OnSetEx[T]) (oldData any) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	path = normalizeKey(path)
 	_, oldData = s.root.insert([]rune(path), path, data, s, cb)
 	return
 }
@@ -411,6 +418,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	path = normalizeKey(path)
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
 	switch len(descriptionAndComments) {
 	case 0:
@@ -433,6 +441,7 @@ func (s *trieS[T]) SetEmpty(path string) (oldData any) { //nolint:revive
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	var v T
+	path = normalizeKey(path)
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
 	node.SetEmpty()
 	return old
@@ -443,6 +452,7 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	var v T
+	path = normalizeKey(path)
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
 	if data, ok := old.(T); ok {
 		node.data = data // keep the data of an existing node, it's up to cb
@@ -768,6 +778,8 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
 	if matched, pm, child, prnt := s.root.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
 		found, parent, partialMatched, inside = child, prnt, pm, mctx.inside
+	} else if strings.Contains(word, " ") {
+		return s.search(normalizeKey(word), kvpair)
 	}
 
 	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
-- 
2.43.0


From 4de9398878c322da1299ad672330ef38be82ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:31 +0000
Subject: [PATCH 12/39] fix: GetM and GetR extract exactly the keys at or
 beneath a path

They walked the radix node the path ended in, so "app" extracted "apple" too
and a partially matched path extracted foreign keys; names were cut by the
length of the path and then stripped once more segment by segment, which lost
or garbled them for nested keys and for views. The empty path of a view now
stands for what the view can see.
---
 radix/cvter.go | 223 +++++++++++++++++++------------------------------
 1 file changed, 85 insertions(+), 138 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..1319ef0 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -339,59 +339,72 @@ func (s *trieS[T]) EndsWith(path string, r rune) bool {
 	return node.EndsWith(r)
 }
 
-func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[string]any, err error) {
-	var (
-		found, partialMatched, branch bool
-		nodeX                         *nodeS[T]
-	)
-
-	if path == "" || path == "." || path == "(root)" {
-		// node, _, _, _ = s.Locate(path)
-		// // if len(node.children) > 0 {
-		// // 	node = node.children[0]
-		// // }
-		// ret = make(map[string]any)
-		// ret[node.pathS] = node.data
-
-		ret = make(map[string]any)
-		s.root.Walk(func(path, fragment string, node Node[T]) {
-			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
-				ret[path] = node.Data()
-			}
-		})
-		return
-	}
+// isRootPath tests if a path stands for everything the trie (or the
+// view on it, by prefix) can see.
+func isRootPath(path string) bool { return path == "" || path == "." || path == "(root)" }
+
+// walkKeys visits each key at or beneath the path. The 'name' passed
+// to cb is the key relative to the path. For the path itself, it is
+// its last segment.
+func (s *trieS[T]) walkKeys(path string, cb func(key, name string, node Node[T])) (found bool) {
+	if isRootPath(path) {
+		path = ""
+	}
+
+	root, base, delimiter := s.root, "", string(s.delimiter)
+	if path != "" || s.prefix != "" {
+		if root, _, _, found = s.Locate(path, nil); !found {
+			return
+		}
+		base = root.pathS
+	}
+
+	parent := strings.TrimSuffix(base, delimiter) + delimiter
+	root.Walk(func(key, fragment string, node Node[T]) {
+		// For a trie like:
+		//
+		//     app.                          <B>
+		//       d                           <B>
+		//         ebug                      <L>, app.debug => false
+		//         ump                       <L>, app.dump => 3
+		//           .to                     <L>, app.dump.to => stdout
+		//       verbose                     <L>, app.verbose => true
+		//       logging.                    <B>
+		//         file                      <L>, app.logging.file => /tmp/1.log
+		//         rotate                    <L>, app.logging.rotate => 6
+		//         words                     <L>, app.logging.words => [a 1 false]
+		//       server.start                <L>, app.server.start => 5
+		//
+		// the node 'app.' is a branch and ends with '.',
+		// the node 'app.' / 'd' is a branch and not ends with '.'.
+		//
+		// We keep those nodes which is leaf and not ends with '.', just
+		// like 'app.dump' or 'app.dump.to'.
+		//
+		// See also TestStore_GetR()
+		if node.IsBranch() || s.simpleEndsWith(key, s.delimiter) {
+			return
+		}
+		switch {
+		case base == "":
+			cb(key, key, node)
+		case strings.HasPrefix(key, parent):
+			cb(key, key[len(parent):], node)
+		case key == base:
+			a := strings.Split(key, delimiter)
+			cb(key, a[len(a)-1], node)
+		}
+	})
+	return true
+}
 
-	nodeX, branch, partialMatched, found = s.Locate(path, nil)
-	if found || partialMatched {
-		_, _, ret = branch, partialMatched, make(map[string]any)
-
-		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
-				// For a trie like:
-				//
-				//     app.                          <B>
-				//       d                           <B>
-				//         ebug                      <L>, app.debug => false
-				//         ump                       <L>, app.dump => 3
-				//           .to                     <L>, app.dump.to => stdout
-				//       verbose                     <L>, app.verbose => true
-				//       logging.                    <B>
-				//         file                      <L>, app.logging.file => /tmp/1.log
-				//         rotate                    <L>, app.logging.rotate => 6
-				//         words                     <L>, app.logging.words => [a 1 false]
-				//       server.start                <L>, app.server.start => 5
-				//
-				// the node 'app.' is a branch and ends with '.',
-				// the node 'app.' / 'd' is a branch and not ends with '.'.
-				//
-				// We keep those nodes which is leaf and not ends with '.', just
-				// like 'app.dump' or 'app.dump.to'.
-				//
-				// See also TestStore_GetR()
-				ret[path] = node.Data()
-			}
-		})
+func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[string]any, err error) {
+	m := make(map[string]any)
+	found := s.walkKeys(path, func(key, name string, node Node[T]) {
+		m[key] = node.Data()
+	})
+	if found || isRootPath(path) {
+		ret = m
 		logz.Debug("[GetR] ", "ret", ret)
 	} else {
 		for _, v := range defaultVal {
@@ -409,76 +422,31 @@ func (s *trieS[T]) MustR(path string, defaultVal ...map[string]any) (ret map[str
 //
 
 func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err error) {
-	var (
-		found, partialMatched, branch bool
-		nodeX                         *nodeS[T]
-	)
-
-	if path == "" || path == "." || path == "(root)" {
-		ret = make(map[string]any)
-		putter := prefixPutter[T]{}
-		for _, opt := range opts {
-			opt(&putter)
-		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
-		}
-		s.root.Walk(func(path, fragment string, node Node[T]) {
-			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
-				if putter.filterFn != nil {
-					if !putter.filterFn(node) {
-						return
-					}
-				}
-				if putter.keepPrefix {
-					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
-				}
-			}
-		})
-		if putter.noFlatten {
-			ret = s.splitCompactKeys(ret)
-		}
-		return
+	putter := prefixPutter[T]{}
+	for _, opt := range opts {
+		opt(&putter)
 	}
 
-	nodeX, branch, partialMatched, found = s.Locate(path, nil)
-	if found || partialMatched {
-		_, _, ret = branch, partialMatched, make(map[string]any)
-		putter := prefixPutter[T]{prefix: strings.Split(s.Join(s.prefix, path), string(s.delimiter))}
-		for _, opt := range opts {
-			opt(&putter)
-		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
-		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
-		nodeX.Walk(func(path, fragment string, node Node[T]) {
-			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
-				logz.Verbose("  - put into map", "path", path, "fragment", fragment)
-				if putter.filterFn != nil {
-					if !putter.filterFn(node) {
-						return
-					}
-				}
-				if putter.keepPrefix {
-					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
-				}
-			}
-		})
-		logz.Verbose("[GetM] ", "ret", ret)
+	whole, m := isRootPath(path), make(map[string]any)
+	found := s.walkKeys(path, func(key, name string, node Node[T]) {
+		if putter.filterFn != nil && !putter.filterFn(node) {
+			return
+		}
+		if putter.keepPrefix {
+			name = key
+		}
+		if whole {
+			m[name] = node.Data()
+		} else {
+			putter.putKeys(m, strings.Split(name, string(s.delimiter)), node.Data())
+		}
+	})
+	if found || whole {
+		ret = m
 		if putter.noFlatten {
 			ret = s.splitCompactKeys(ret)
 		}
+		logz.Verbose("[GetM] ", "ret", ret)
 	}
 	return
 }
@@ -623,32 +591,11 @@ type FilterFn[T any] func(node Node[T]) bool // used by GetM, MustM, ...
 type MOpt[T any] func(s *prefixPutter[T]) // used by GetM, MustM, ...
 
 type prefixPutter[T any] struct {
-	prefix     []string
 	keepPrefix bool // constructing the result map by keeping prefix structure?
 	noFlatten  bool // split key like 'app.logging.files' as nested sub-map
 	filterFn   FilterFn[T]
 }
 
-func (s *prefixPutter[T]) put(m map[string]any, prefix, delimiter string, v any) {
-	keys := strings.Split(prefix, delimiter)
-	if s.keepPrefix {
-		s.putKeys(m, keys, v)
-		return
-	}
-
-	if len(keys) >= len(s.prefix) {
-		kk := keys[len(s.prefix):]
-		if len(kk) > 0 {
-			s.putKeys(m, kk, v)
-		} else {
-			kk = keys[len(s.prefix)-1:]
-			s.putKeys(m, kk, v)
-		}
-		return
-	}
-	s.putKeys(m, keys, v)
-}
-
 func (s *prefixPutter[T]) putKeys(m map[string]any, keys []string, v any) {
 	if len(keys) == 0 {
 		return
-- 
2.43.0


From f36b3d4b92ce0332f0fa3da106be24c52924fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 13/39] fix: Walk visits the subtree at the given path

It walked from the parent of the found node, over the whole tree for a
partially matched path, and ignored the prefix of a view.
---
 radix/trie.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 32fda3f..7206262 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -918,18 +918,18 @@ func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
 // Walk navigates the whole tree (passing "" as 'path' param) or
 // a subtree from a given path.
 func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T])) { //nolint:revive
-	root := s.root
-	if path != "" {
-		node, parent, partialMatched, _ := s.search(path, nil)
-		if !partialMatched {
-			root = parent
-			if runes := []rune(path); runes[len(runes)-1] == s.delimiter {
-				root = node
-			}
-		}
+	if path == "" && s.prefix == "" {
+		s.root.walk(0, cb)
+		return
 	}
 
-	if root != nil {
-		root.walk(0, cb)
+	if root, _, _, found := s.Locate(path, nil); found {
+		base, delimiter := root.pathS, string(s.delimiter)
+		parent := strings.TrimSuffix(base, delimiter) + delimiter
+		root.walk(0, func(path, fragment string, node Node[T]) {
+			if path == base || strings.HasPrefix(path, parent) {
+				cb(path, fragment, node)
+			}
+		})
 	}
 }
-- 
2.43.0


From 07ff4476a175e32b0daf83a0a74e203e7c1648df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:22 +0000
Subject: [PATCH 14/39] fix: join path segments with non-ASCII delimiters
 correctly

---
 load.go       | 7 ++++---
 radix/load.go | 7 ++++---
 radix/trie.go | 4 ++--
 store.go      | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/load.go b/load.go
index e7afe7e..0a86eeb 100644
--- a/load.go
+++ b/load.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 
@@ -194,7 +195,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMap(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -214,7 +215,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -238,7 +239,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 				// 	buf = append(buf, byte(s.Delimiter()))
 				// }
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				s.loadMapByValueType(ec, position, string(buf), mm, creating, onSet)
 				buf = buf[:0]
diff --git a/radix/load.go b/radix/load.go
index 5d1896c..f4192da 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"strconv"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 )
@@ -73,7 +74,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			ec.Attach(s.withPrefixImpl(string(buf)).loadMap(mm))
 			buf = buf[:0]
@@ -83,10 +84,10 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		for i, mm := range vv {
 			if s.prefix != "" {
 				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
+				buf = utf8.AppendRune(buf, s.delimiter)
 			}
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
diff --git a/radix/trie.go b/radix/trie.go
index 7206262..54d3c04 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -330,7 +330,7 @@ func (s *trieS[T]) join1(pre string, args ...string) (ret string) {
 
 	for _, it := range args {
 		if it != "" {
-			_ = bb.WriteByte(byte(s.delimiter))
+			_, _ = bb.WriteRune(s.delimiter)
 			_, _ = bb.WriteString(it)
 			i++
 		}
@@ -354,7 +354,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 		for _, it := range args {
 			if it != "" {
 				if bytes > 0 {
-					_ = bb.WriteByte(byte(s.delimiter))
+					_, _ = bb.WriteRune(s.delimiter)
 				}
 				_, _ = bb.WriteString(it)
 				bytes++ //nolint:revive
diff --git a/store.go b/store.go
index 78b5ab8..1857e42 100644
--- a/store.go
+++ b/store.go
@@ -206,7 +206,7 @@ func (s *storeS) join(args ...string) (ret string) {
 	for _, it := range args {
 		if it != "" {
 			if i > 0 {
-				bb.WriteByte(byte(s.Delimiter()))
+				bb.WriteRune(s.Delimiter())
 			}
 			bb.WriteString(it)
 			i++
-- 
2.43.0


From 5dff598156a82f476cf04a450754c4d4458f7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 15/39] fix: a TTL set through a view is run by the store it is
 a view of

Each view (WithPrefix, BR, ...; even the temporary ones made while loading)
of a store with TTLs spawned a TTL service and goroutine which nobody
closed. A section was removed by its full path with the prefix of the view
prepended once more.
---
 radix/trie.go | 53 ++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 54d3c04..8ba294f 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -37,6 +37,7 @@ type trieS[T any] struct {
 	delimiter     rune
 	ttlpresent    atomic.Uint32
 	ttls          *TTL[T]
+	owner         *trieS[T] // the trie which this one is a view (by prefix or recursive mode) of
 	recursiveMode RecusiveMode
 }
 
@@ -95,6 +96,7 @@ type ttljobS[T any] struct {
 	node     *nodeS[T]
 	duration time.Duration
 	action   OnTTLRinging[T]
+	section  bool // it's a section (branch), to be dropped at ttl arrived
 }
 
 type OnTTLRinging[T any] func(s *TTL[T], nd Node[T])
@@ -111,18 +113,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -133,7 +123,7 @@ func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T
 	if nd.rw == nil {
 		nd.rw = &sync.RWMutex{}
 	}
-	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}
+	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action, section: nd.isBranch()}
 }
 
 func (s *TTL[T]) run() {
@@ -156,8 +146,8 @@ func (s *TTL[T]) run() {
 					if job.action != nil {
 						job.action(s, job.node)
 					}
-					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
+					if job.section {
+						s.treevec[0].removeFullPath(job.node.pathS)
 					} else {
 						job.node.SetEmpty()
 					}
@@ -219,20 +209,26 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if found {
 		node = s.sectionNode(node, inside)
 		state = 0
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
-		s.ttls.Add(node, ttl, cb)
+		s.ttlService().Add(node, ttl, cb)
 	}
 	return
 }
 
+// ttlService returns the running TTL service. The views share the
+// one of their owner.
+func (s *trieS[T]) ttlService() *TTL[T] {
+	if s.owner != nil {
+		return s.owner.ttlService()
+	}
+	if s.ttlpresent.CompareAndSwap(0, 1) {
+		s.ttls = newttls(s)
+	}
+	return s.ttls
+}
+
 func (s *trieS[T]) SetTTLFast(node Node[T], ttl time.Duration, cb OnTTLRinging[T]) (state int) {
 	if nd, ok := node.(*nodeS[T]); ok {
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
-		s.ttls.Add(nd, ttl, cb)
+		s.ttlService().Add(nd, ttl, cb)
 	} else {
 		state = -1
 	}
@@ -249,9 +245,10 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
+	if root == s.root { // a view on the same tree
+		if newTrie.owner = s.owner; newTrie.owner == nil {
+			newTrie.owner = s
+		}
 	}
 	return
 }
@@ -590,6 +587,10 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	return s.removeFullPath(path)
+}
+
+func (s *trieS[T]) removeFullPath(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
 	node, parent, partialMatched, inside := s.search(path, nil)
 	_, found := s.exists(node, partialMatched, inside)
 	if found {
-- 
2.43.0


From 20c51db4983263364b100f27226df7b783001e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:34 +0000
Subject: [PATCH 16/39] fix: closing a store stops its TTL service

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 1857e42..af1340c 100644
--- a/store.go
+++ b/store.go
@@ -221,6 +221,9 @@ func (s *storeS) Close() {
 	for _, c := range s.closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // the TTL service
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From 8597638715c0eeab487f85a9c4ee53a5cc628fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 17/39] fix: endless recursion in storeS.RecursiveMode

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index af1340c..3873d75 100644
--- a/store.go
+++ b/store.go
@@ -488,7 +488,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From db97922c85205f1a69469cdd18c5b0fa74bf03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:00 +0000
Subject: [PATCH 18/39] fix: a store and its views share the loading state

A view made within a loading block kept the state forever, so that user's
writes through it were never marked as modified; and a view made before it
did not notice the loading.
---
 load.go  | 13 +++++++------
 store.go | 28 ++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/load.go b/load.go
index 0a86eeb..5f34414 100644
--- a/load.go
+++ b/load.go
@@ -17,14 +17,15 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
-func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
+func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.base().loading) == 1 }
 
 // WithinLoading is a helper to 'load' a 'fn'. The 'fn' will be
 // run as is, and the internal flag 's.loading' will be set at
 // beginning of fn executing, and reset at ending of fn.
 func (s *storeS) WithinLoading(fn func()) {
-	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
-		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
+	base := s.base()
+	if atomic.CompareAndSwapInt32(&base.loading, 0, 1) {
+		defer func() { atomic.CompareAndSwapInt32(&base.loading, 1, 0) }()
 		fn()
 	}
 }
@@ -90,8 +91,9 @@ func (s *storeS) SaveAs(ctx context.Context, outfile string, opts ...SaveAsOpt)
 //	   t.Fatalf("failed: %v", err)
 //	}
 func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err error) {
-	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
-		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
+	base := s.base()
+	if atomic.CompareAndSwapInt32(&base.loading, 0, 1) {
+		defer func() { atomic.CompareAndSwapInt32(&base.loading, 1, 0) }()
 
 		loader := newLoader(s, opts...)
 
@@ -178,7 +180,6 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	defer func() { atomic.StoreInt32(&set.loading, 0) }()
 	set.setKV(k, v, creating, onSet)
 }
 
diff --git a/store.go b/store.go
index 3873d75..bf8df1b 100644
--- a/store.go
+++ b/store.go
@@ -140,12 +140,28 @@ func (s *storeS) dupS(trie radix.Trie[any]) (newStore *storeS) {
 		Trie:         trie,
 		flattenSlice: s.flattenSlice,
 		allowWatch:   s.allowWatch,
-		loading:      s.loading,
 		// don't dup the member 'parent' here
 	}
 	return
 }
 
+// viewS makes a new `*storeS` instance as a view of this one, which
+// means the given `trie` object shares the tree with ours. So do the
+// loading state and the handlers.
+func (s *storeS) viewS(trie radix.Trie[any]) (newStore *storeS) {
+	newStore = s.dupS(trie)
+	newStore.parent = s
+	return
+}
+
+// base returns the store which this one is a view of.
+func (s *storeS) base() *storeS {
+	for s.parent != nil {
+		s = s.parent
+	}
+	return s
+}
+
 //
 
 //
@@ -464,7 +480,7 @@ func (s *storeS) Dup() (newStore Store) {
 // A [Delimiter] will be inserted at jointing prefix and key. Also at
 // jointing old and new prefix.
 func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefix(prefix...))
+	return s.viewS(s.Trie.WithPrefix(prefix...))
 }
 
 // WithPrefixReplaced is similar with WithPrefix, but it replaces
@@ -477,7 +493,7 @@ func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
 //
 // A [Delimiter] will be inserted at jointing prefix and key.
 func (s *storeS) WithPrefixReplaced(newPrefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefixReplaced(newPrefix...))
+	return s.viewS(s.Trie.WithPrefixReplaced(newPrefix...))
 }
 
 // SetPrefix updates the prefix in current storeS.
@@ -485,9 +501,9 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 	s.Trie.SetPrefix(newPrefix...)
 }
 
-func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
-func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
-func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
+func (s *storeS) N() (newStore Store)               { return s.viewS(s.Trie.N()) }
+func (s *storeS) R() (newStore Store)               { return s.viewS(s.Trie.R()) }
+func (s *storeS) BR() (newStore Store)              { return s.viewS(s.Trie.BR()) }
 func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
-- 
2.43.0


From 9ce49de41fbd413d71a1c452cb09fd00ec0d5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:07 +0000
Subject: [PATCH 19/39] fix: keep Walk starting from the parent node for a path
 without trailing delimiter

It is documented that way on Store.Walk.
---
 radix/trie.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index 8ba294f..c96a069 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -924,6 +924,16 @@ func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T]
 		return
 	}
 
+	if path != "" && !s.simpleEndsWith(path, s.delimiter) {
+		// walk from the parent of the found node
+		if _, _, _, found := s.Locate(path, nil); found {
+			if _, parent, _, _ := s.search(s.join1(s.prefix, path), nil); parent != nil {
+				parent.walk(0, cb)
+			}
+		}
+		return
+	}
+
 	if root, _, _, found := s.Locate(path, nil); found {
 		base, delimiter := root.pathS, string(s.delimiter)
 		parent := strings.TrimSuffix(base, delimiter) + delimiter
-- 
2.43.0


From fe295775954d75802b18a6fbb4a67cea1fbc2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 20/39] fix: handlers are called for changes made through
 views, by merging and by loading

The handlers of a store were not called for its views (merging and loading
use them internally), new and change were decided by the caller, and the last
argument mergingMapOrLoading was true for user's operations. Removing a
section reported the value of a key inside.
---
 load.go       |   6 +--
 radix/trie.go |   2 +-
 store.go      | 111 ++++++++++++++++++++++----------------------------
 3 files changed, 52 insertions(+), 67 deletions(-)

diff --git a/load.go b/load.go
index 5f34414..05b22c7 100644
--- a/load.go
+++ b/load.go
@@ -180,7 +180,7 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	set.setKV(k, v, creating, onSet)
+	set.setKV(k, v, true, onSet)
 }
 
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
@@ -334,7 +334,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.setKV(key, val, hasCreate, nil)
+			s.setKV(key, val, true, nil)
 			logz.Debug("created/wrote: ", key, s.MustGet(key), "event", ev.Op())
 		}
 	} else if ev.Has(OpRemove) {
@@ -344,7 +344,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.Remove(key)
+			s.removeKey(key, true)
 			logz.Debug("removed: ", key, val, "event", ev.Op())
 		}
 	} else if hasRename, hasChmod := ev.Has(OpRename), ev.Has(OpChmod); hasRename || hasChmod {
diff --git a/radix/trie.go b/radix/trie.go
index c96a069..5e31c06 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -600,7 +600,7 @@ func (s *trieS[T]) removeFullPath(path string) (nodeRemoved, nodeParent Node[T],
 			}
 			removed = parent.remove(node)
 			if removed {
-				nodeRemoved, nodeParent = node, parent
+				nodeRemoved, nodeParent = s.sectionNode(node, inside), parent
 			}
 		} else {
 			logz.Warn("if given path found and return node, its parent MUST NOT be nil", "node", node, "parent", parent)
diff --git a/store.go b/store.go
index bf8df1b..7cde36a 100644
--- a/store.go
+++ b/store.go
@@ -263,19 +263,7 @@ func (s *storeS) Get(path string) (data any, found bool) {
 
 // Set sets key('path') and value pair into storeS.
 func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any) {
-	old, branch, found, err := s.Trie.Query(path, nil)
-	if !found {
-		if err != nil || !branch {
-			old = nil
-		}
-	}
-	if old != nil {
-		oldData = old
-	}
-
-	node, oldData = s.setKV(path, data, !found, nil)
-	// s.tryOnSet(path, false, old, data)
-	return
+	return s.setKV(path, data, false, nil)
 }
 
 // SetTTL sets a ttl timeout for a branch or a leaf node.
@@ -345,14 +333,14 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // 	return
 // }
 
-func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+// setKV sets a key. external is true means that it's not a direct
+// operation from user: merging a map, or applying the changes of an
+// external source.
+func (s *storeS) setKV(path string, data any, external bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+	existed, branch, _, found := s.Trie.Locate(path, nil)
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
-	user := !loading
-	if user {
-		if oldData != nil {
-			createOrModify = false // set it to is-modifying instead of is-creating
-		}
+	if !loading {
 		if node != nil {
 			if onSet != nil {
 				onSet(node)
@@ -360,71 +348,68 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			node.SetModified(true)
 		}
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	creating := !found || branch || node != radix.Node[any](existed)
+	s.tryOnSet(path, external || loading, oldData, data, creating)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
-	ptr := s
-
-	if createOrModify {
-	retryPN:
-		for _, cb := range ptr.onNewHandlers {
-			if cb != nil {
-				cb(path, data, user)
-			}
+// notify visits this store and its parents. The path passed to fn is
+// relative to the prefix of the visited store.
+func (s *storeS) notify(path string, fn func(ptr *storeS, path string)) {
+	fn(s, path)
+	full := s.join(s.Prefix(), path)
+	for ptr := s.parent; ptr != nil; ptr = ptr.parent {
+		p := full
+		if pre := ptr.Prefix(); pre != "" {
+			p = strings.TrimPrefix(full, pre+string(ptr.Delimiter()))
 		}
-		if ptr.parent != nil {
-			ptr = ptr.parent
-			goto retryPN
-		}
-		return
+		fn(ptr, p)
 	}
+}
 
-retryPM:
-	for _, cb := range ptr.onChangeHandlers {
-		if cb != nil {
-			cb(path, data, oldData, user)
+func (s *storeS) tryOnSet(path string, mergingMapOrLoading bool, oldData, data any, creating bool) {
+	s.notify(path, func(ptr *storeS, path string) {
+		if creating {
+			for _, cb := range ptr.onNewHandlers {
+				if cb != nil {
+					cb(path, data, mergingMapOrLoading)
+				}
+			}
+			return
 		}
-	}
-	if ptr.parent != nil {
-		ptr = ptr.parent
-		goto retryPM
-	}
+		for _, cb := range ptr.onChangeHandlers {
+			if cb != nil {
+				cb(path, data, oldData, mergingMapOrLoading)
+			}
+		}
+	})
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
-	ptr := s
+func (s *storeS) tryOnDelete(path string, mergingMapOrLoading bool, oldData any, node, np radix.Node[any]) {
 	_, _ = node, np
-retryPD:
-	for _, cb := range ptr.OnDeleteHandlers {
-		if cb != nil {
-			cb(path, oldData, user)
+	s.notify(path, func(ptr *storeS, path string) {
+		for _, cb := range ptr.OnDeleteHandlers {
+			if cb != nil {
+				cb(path, oldData, mergingMapOrLoading)
+			}
 		}
-	}
-	if ptr.parent != nil {
-		ptr = ptr.parent
-		goto retryPD
-	}
+	})
 }
 
 func (s *storeS) Remove(path string) (removed bool) {
-	var rmn, np radix.Node[any]
-	rmn, np, removed = s.Trie.RemoveEx(path)
-	if removed {
-		loading := s.inLoading()
-		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
-	}
+	_, _, removed = s.RemoveEx(path)
 	return
 }
 
 func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool) {
+	return s.removeKey(path, false)
+}
+
+func (s *storeS) removeKey(path string, external bool) (nodeRemoved, nodeParent radix.Node[any], removed bool) {
 	nodeRemoved, nodeParent, removed = s.Trie.RemoveEx(path)
 	if removed {
-		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, external || s.inLoading(), data, nodeRemoved, nodeParent)
 	}
 	return
 }
-- 
2.43.0


From ff7b7d45fbf8239cb5af4af7c150e8ab8722bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:20 +0000
Subject: [PATCH 21/39] fix: description, comment and tag supplied by a
 provider arrive in the store

They were applied for user's operations only, that is never while loading.
---
 load.go  | 17 ++++++++++++-----
 store.go | 10 +++++-----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/load.go b/load.go
index 05b22c7..29f119b 100644
--- a/load.go
+++ b/load.go
@@ -151,14 +151,21 @@ func (s *storeS) loadMapDedicated(m map[string]ValPkg, position string, creating
 	ec := errors.New()
 	defer ec.Defer(&err)
 	for k, v := range m {
-		s.loadMapByValueType(ec, position, k, v.Value, creating, func(node radix.Node[any]) {
-			node.SetComment(v.Desc, v.Comment)
-			node.SetTag(v.Tag)
-		})
+		s.loadMapByValueType(ec, position, k, v.Value, creating, v.onSet)
 	}
 	return
 }
 
+// onSet puts the meta-info to the node which holds the value, if any.
+func (v ValPkg) onSet(node radix.Node[any]) {
+	if v.Desc != "" || v.Comment != "" {
+		node.SetComment(v.Desc, v.Comment)
+	}
+	if v.Tag != nil {
+		node.SetTag(v.Tag)
+	}
+}
+
 func (s *storeS) loadMapAny(m map[any]any, position string, creating bool, onSet lmOnSet) (err error) {
 	ec := errors.New()
 	defer ec.Defer(&err)
@@ -186,7 +193,7 @@ func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet l
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
 	switch vv := v.(type) {
 	case ValPkg:
-		s.loadMapByValueType(ec, position, k, vv.Value, creating, onSet)
+		s.loadMapByValueType(ec, position, k, vv.Value, creating, vv.onSet)
 	case map[string]any:
 		ec.Attach(s.loadMap(vv, s.join(position, k), creating, onSet))
 	case map[any]any:
diff --git a/store.go b/store.go
index 7cde36a..415fe70 100644
--- a/store.go
+++ b/store.go
@@ -340,11 +340,11 @@ func (s *storeS) setKV(path string, data any, external bool, onSet lmOnSet) (nod
 	existed, branch, _, found := s.Trie.Locate(path, nil)
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
-	if !loading {
-		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
+	if node != nil {
+		if onSet != nil {
+			onSet(node)
+		}
+		if !loading {
 			node.SetModified(true)
 		}
 	}
-- 
2.43.0


From cb9971fbc7389ebb8220a6edf4fa0b31391afb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:30 +0000
Subject: [PATCH 22/39] fix: a change announced by a watched source is not a
 modification by user

---
 load.go  |  2 +-
 store.go | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/load.go b/load.go
index 29f119b..c909b0f 100644
--- a/load.go
+++ b/load.go
@@ -341,7 +341,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.setKV(key, val, true, nil)
+			s.setKVBy(key, val, false, true, nil)
 			logz.Debug("created/wrote: ", key, s.MustGet(key), "event", ev.Op())
 		}
 	} else if ev.Has(OpRemove) {
diff --git a/store.go b/store.go
index 415fe70..448278b 100644
--- a/store.go
+++ b/store.go
@@ -333,13 +333,16 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // 	return
 // }
 
-// setKV sets a key. external is true means that it's not a direct
-// operation from user: merging a map, or applying the changes of an
-// external source.
-func (s *storeS) setKV(path string, data any, external bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+// setKV sets a key. merging is true means that user is merging a map.
+func (s *storeS) setKV(path string, data any, merging bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+	return s.setKVBy(path, data, merging, s.inLoading(), onSet)
+}
+
+// setKVBy sets a key. loading is true means that the value comes from
+// an external source.
+func (s *storeS) setKVBy(path string, data any, merging, loading bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
 	existed, branch, _, found := s.Trie.Locate(path, nil)
 	node, oldData = s.Trie.Set(path, data)
-	loading := s.inLoading()
 	if node != nil {
 		if onSet != nil {
 			onSet(node)
@@ -349,7 +352,7 @@ func (s *storeS) setKV(path string, data any, external bool, onSet lmOnSet) (nod
 		}
 	}
 	creating := !found || branch || node != radix.Node[any](existed)
-	s.tryOnSet(path, external || loading, oldData, data, creating)
+	s.tryOnSet(path, merging || loading, oldData, data, creating)
 	return
 }
 
-- 
2.43.0


From 3b2de79b6340cacd7fb60a41725a97b73e3c021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:39 +0000
Subject: [PATCH 23/39] fix: Store.Merge on a view merges beneath its prefix

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 448278b..4795f00 100644
--- a/store.go
+++ b/store.go
@@ -305,7 +305,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 3b70edcaaa8748376d9ecc738a46dd3cc78790e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:49 +0000
Subject: [PATCH 24/39] fix: Trie.Merge keeps the path for nested maps and
 lists

A nested map was merged at its own key from the root, and the elements of a
list with the prefix doubled.
---
 radix/load.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index f4192da..dc6470a 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -69,7 +69,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -82,10 +82,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = utf8.AppendRune(buf, s.delimiter)
-			}
 			buf = append(buf, k...)
 			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
-- 
2.43.0


From bce57b4fcb8cf9d534feda1f874a2f5cde710b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 25/39] fix: closing a store closes the sources loaded with
 WithStorePrefix

The closers were registered on the temporary view of the loader.
---
 load.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/load.go b/load.go
index c909b0f..a152cb3 100644
--- a/load.go
+++ b/load.go
@@ -314,7 +314,8 @@ func (s *storeS) startWatch(ctx context.Context, loader *Loader) {
 		if err := w.Watch(ctx, s.applyExternalChanges); err != nil {
 			logz.Error("[Watcher.StartWatch.ERROR]", "err", err)
 		} else {
-			s.closers = append(s.closers, w)
+			base := s.base()
+			base.closers = append(base.closers, w)
 		}
 	}
 }
-- 
2.43.0


From 27d3225731b63f9b73554195b01d6416370e2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:06 +0000
Subject: [PATCH 26/39] fix: the load option WithStoreFlattenSlice does not
 alter the store

---
 load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/load.go b/load.go
index a152cb3..9258039 100644
--- a/load.go
+++ b/load.go
@@ -464,6 +464,7 @@ func WithPosition(position string) LoadOpt {
 // instead of treating it as a node value.
 func WithStoreFlattenSlice(b bool) LoadOpt {
 	return func(s *Loader) {
+		s.storeS = s.storeS.viewS(s.storeS.Trie) // don't touch the store itself
 		s.flattenSlice = b
 	}
 }
-- 
2.43.0


From 63b02dab5a109682a93f432b35b6d7c436ac95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:16 +0000
Subject: [PATCH 27/39] fix: loading from a pure StreamProvider

It went on decoding empty bytes as JSON and always failed.
---
 load.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/load.go b/load.go
index 9258039..cdf7d7d 100644
--- a/load.go
+++ b/load.go
@@ -530,14 +530,15 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 		case OnceProvider:
 			b, err = fp.ReadBytes()
 		case StreamProvider:
-			err = nil
+			data = make(map[string]ValPkg)
 			for {
 				k, eol := fp.Next()
 				if eol {
 					break
 				}
-				s.setKV(k, fp.MustValue(k), true, nil)
+				data[k] = ValPkg{Value: fp.MustValue(k)}
 			}
+			return data, nil, nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 53bc4f11ebe0774aa7ecab4d2b523df22c4b745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 28/39] fix: gob codec returns the encoded bytes and can be
 used more than once

---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..43e934b 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var sb bytes.Buffer
+	if err = gob.NewEncoder(&sb).Encode(m); err == nil {
+		data = sb.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From 2ff5d221b95a4357328de3941febb0273e3adc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:29 +0000
Subject: [PATCH 29/39] fix: the Next method of env and flags providers
 enumerates the keys

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..82768fc 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..45215b8 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From 3cdc2c27b13db5352a4c71a182bb2b7b72af6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:36 +0000
Subject: [PATCH 30/39] fix: flags provider compares the prefix as is

The upper-cased prefix never matched the usual lower-case flag names.
---
 providers/flags/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 45215b8..97c01fa 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -40,7 +40,7 @@ func WithCodec(codec store.Codec) Opt {
 	}
 }
 
-// WithPrefix gives a filter prefix for env var name.
+// WithPrefix gives a filter prefix for flag name.
 //
 // Only names which have given prefix are available.
 // Such as app.Name()+"_".
@@ -48,7 +48,7 @@ func WithCodec(codec store.Codec) Opt {
 // The filtered names will be stripped by strippedPrefix.
 func WithPrefix(prefix string, strippedPrefix ...string) Opt {
 	return func(s *pvdr) {
-		s.prefix = strings.ToUpper(prefix)
+		s.prefix = prefix
 		for _, ss := range strippedPrefix {
 			s.stripped = ss
 		}
-- 
2.43.0


From 2951dbd4c8faff5e91bbb9408899938e55c9c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:43 +0000
Subject: [PATCH 31/39] fix: env and flags providers don't panic on a name
 which is nothing but the stripped prefix

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 82768fc..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 97c01fa..359e18e 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
-- 
2.43.0


From 6c077f209d6fdd3105fb1350626511ff1bf24728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:53 +0000
Subject: [PATCH 32/39] fix: parsing a size with multibyte characters does not
 panic

---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 1319ef0..5829f74 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1499,12 +1500,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1585,12 +1586,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From e21bf269f1dacc19329c53055fd11824b740faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:35 +0000
Subject: [PATCH 33/39] fix: Trie.Merge does not panic on a nil value

---
 radix/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/load.go b/radix/load.go
index dc6470a..2e689f0 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -88,6 +88,9 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
 		}
+	case nil:
+		var t T
+		s.Set(k, t)
 	default:
 		s.Set(k, v.(T))
 	}
-- 
2.43.0


From dc9aec45ff2bafcb12405602f2070804c466ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 34/39] fix: map provider loses lists inside nested maps

---
 internal/cvt/cvt.go | 47 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..644991b 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,18 +2,55 @@ package cvt
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
-
-	"github.com/hedzr/evendeep"
 )
 
-// Copy copies a map deeply
+// Copy copies a map deeply, including the nested maps and slices.
 func Copy(m map[string]any) (data map[string]any) {
-	data = make(map[string]any)
-	evendeep.Copy(&m, &data)
+	data = make(map[string]any, len(m))
+	for k, v := range m {
+		data[k] = copyValue(v)
+	}
 	return
 }
 
+func copyValue(val any) any {
+	if val == nil {
+		return nil
+	}
+	return copyReflect(reflect.ValueOf(val)).Interface()
+}
+
+func copyReflect(v reflect.Value) reflect.Value {
+	switch v.Kind() { //nolint:exhaustive
+	case reflect.Interface:
+		if v.IsNil() {
+			return v
+		}
+		return copyReflect(v.Elem())
+	case reflect.Map:
+		if v.IsNil() {
+			return v
+		}
+		x := reflect.MakeMapWithSize(v.Type(), v.Len())
+		for it := v.MapRange(); it.Next(); {
+			x.SetMapIndex(it.Key(), copyReflect(it.Value()))
+		}
+		return x
+	case reflect.Slice:
+		if v.IsNil() {
+			return v
+		}
+		x := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			x.Index(i).Set(copyReflect(v.Index(i)))
+		}
+		return x
+	}
+	return v
+}
+
 // Normalize make a map formal with nested map[string]any objects.
 func Normalize(m map[string]any, worker func(k string, v any)) map[string]any {
 	for k, v := range m {
-- 
2.43.0


From 99687c1553f45cbf3e54b1b329e6cf96f6dba8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:29 +0000
Subject: [PATCH 35/39] fix: a clone loses lists in maps and unexported fields,
 and dereferences pointers

---
 internal/cvt/cvt.go | 21 +++++++++++++++++++--
 radix/node.go       |  8 ++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 644991b..e249133 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -10,12 +10,14 @@ import (
 func Copy(m map[string]any) (data map[string]any) {
 	data = make(map[string]any, len(m))
 	for k, v := range m {
-		data[k] = copyValue(v)
+		data[k] = CopyValue(v)
 	}
 	return
 }
 
-func copyValue(val any) any {
+// CopyValue copies a value: maps, slices, arrays and structs deeply,
+// the others, pointers too, as they are.
+func CopyValue(val any) any {
 	if val == nil {
 		return nil
 	}
@@ -47,6 +49,21 @@ func copyReflect(v reflect.Value) reflect.Value {
 			x.Index(i).Set(copyReflect(v.Index(i)))
 		}
 		return x
+	case reflect.Array, reflect.Struct:
+		x := reflect.New(v.Type()).Elem()
+		x.Set(v)
+		if v.Kind() == reflect.Array {
+			for i := 0; i < v.Len(); i++ {
+				x.Index(i).Set(copyReflect(v.Index(i)))
+			}
+			return x
+		}
+		for i := 0; i < v.NumField(); i++ {
+			if v.Type().Field(i).IsExported() {
+				x.Field(i).Set(copyReflect(v.Field(i)))
+			}
+		}
+		return x
 	}
 	return v
 }
diff --git a/radix/node.go b/radix/node.go
index fd36380..dee49c8 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -6,7 +6,7 @@ import (
 	"sync"
 	"time"
 
-	"github.com/hedzr/evendeep"
+	"github.com/hedzr/store/internal/cvt"
 )
 
 type nodeType int
@@ -568,11 +568,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	data := evendeep.MakeClone(s.Data())
-	switch z := data.(type) {
-	case *T:
-		newNode.data = *z
-	case T:
+	if z, ok := cvt.CopyValue(s.Data()).(T); ok {
 		newNode.data = z
 	}
 	return
-- 
2.43.0


From 3c290584f3fc43c7c09c1c7c647e4b371c9c2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 36/39] fix: map provider drops keys when dotted and nested
 keys name the same section

---
 internal/cvt/cvt.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index e249133..e81e54a 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -145,8 +145,21 @@ func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 			}
 		}
 
-		// Assign the value.
-		next[keys[len(keys)-1]] = v
+		// Assign the value. The keys of a sub-map may have been split
+		// from other keys already, they are kept.
+		assign(next, keys[len(keys)-1], v)
 	}
 	return
 }
+
+func assign(m map[string]any, key string, val any) {
+	if sub, ok := val.(map[string]any); ok {
+		if old, ok := m[key].(map[string]any); ok {
+			for k, v := range sub {
+				assign(old, k, v)
+			}
+			return
+		}
+	}
+	m[key] = val
+}
-- 
2.43.0


From b4c29733782d03d6e0c77d011d0d336778bc2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:02 +0000
Subject: [PATCH 37/39] fix: yaml codec could not load a document: decode into
 the map's address

---
 codecs/yaml/yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/yaml/yaml.go b/codecs/yaml/yaml.go
index 9d26376..89fb0fe 100644
--- a/codecs/yaml/yaml.go
+++ b/codecs/yaml/yaml.go
@@ -34,7 +34,7 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 		return
 	}
 	dec := yamlv3.NewDecoder(f)
-	if err = dec.Decode(data); err != nil {
+	if err = dec.Decode(&data); err != nil {
 		return
 	}
 	return
-- 
2.43.0


From 3944a9a38cc61fb98e9de3537be9e8f9ea669835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:02 +0000
Subject: [PATCH 38/39] fix: gob codec could not encode lists: register []any
 with gob

---
 codecs/gob/gob.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index 43e934b..817fa01 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -14,6 +14,7 @@ import (
 // interfaces.
 func New() store.Codec {
 	gob.Register(map[string]any{})
+	gob.Register([]any{})
 	return &ldr{}
 }
 
-- 
2.43.0


From 381d3435f1595aa0cd2dc5ef0ff32857c94893d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:13 +0000
Subject: [PATCH 39/39] fix: HasPart finds a part of a key given with spaces,
 as Has finds the key

---
 radix/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 5e31c06..35e68b1 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -568,7 +568,7 @@ func (s *trieS[T]) HasPart(path string) (yes bool) {
 	node, _, partialMatched, _ := s.search(path, nil)
 	yes = node != nil && (node == s.root || node.alive())
 	if partialMatched && yes {
-		yes = strings.HasPrefix(node.pathS, path)
+		yes = strings.HasPrefix(node.pathS, normalizeKey(path))
 	}
 	return
 }
-- 
2.43.0

