From 52e952c15c6871fb38b51d0e6d6110365934e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 01/30] fix: only a trailing wildcard scope covers deeper
 levels

A permission on scope "a" implied permissions on "a/a", "a/a/a" ...: the
last level of the shorter scope was compared again with every deeper level.
---
 auth/auth.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..f1a4d5b 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -102,6 +102,11 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		return false
 	}
 
+	// only a trailing wildcard covers the deeper levels
+	if len(ipScopeParts) > len(pScopeParts) && pScopeParts[len(pScopeParts)-1] != "*" {
+		return false
+	}
+
 	if p.Access&anotherPermission.Access != anotherPermission.Access {
 		return false
 	}
-- 
2.43.0


From 801dcc8f4a563e6082cd60c286422732eada1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:25 +0000
Subject: [PATCH 02/30] fix: a denied access blocks any request that includes
 it

Role.HasPermission only looked for a denied permission implying the whole
request, so asking for READ|WRITE passed a role that denies WRITE.
---
 auth/auth.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/auth.go b/auth/auth.go
index f1a4d5b..b21a53f 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -143,7 +143,13 @@ type Role struct {
 // HasPermission returns true if the current Role has the Permission
 func (r Role) HasPermission(permission Permission) bool {
 	for i := 0; i < len(r.DeniedPermissions); i++ {
-		if r.DeniedPermissions[i].Implies(permission) {
+		denied := r.DeniedPermissions[i]
+		// it is enough that one of the requested accesses is denied
+		common := denied.Access & permission.Access
+		if common == 0 && permission.Access != 0 {
+			continue
+		}
+		if denied.Implies(Permission{Scope: permission.Scope, Access: common}) {
 			return false
 		}
 	}
-- 
2.43.0


From 7c7d356a003fdca96b84c792ab525df4d3cac1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:04 +0000
Subject: [PATCH 03/30] fix: decide wildcard segments by characters and
 backtrack to the last *

---
 router/path/pattern.go | 107 +++++++++++------------------------------
 1 file changed, 29 insertions(+), 78 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..2a568b1 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -6,7 +6,7 @@ import (
 	"math"
 	"regexp"
 	"strings"
-	"unicode"
+	"unicode/utf8"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -178,95 +178,46 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 }
 
 func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensitive bool) bool {
-	var hasStar bool
 	patternSegmentLen := len(patternSegment)
 	urlPathSegmentLen := len(urlPathSegment)
-	for i := 0; i < patternSegmentLen; i++ {
-		if patternSegment[i] == '*' {
-			hasStar = true
-			break
-		}
-	}
-	if !hasStar && urlPathSegmentLen != patternSegmentLen {
-		return false
-	}
-
-	runesMatches := func(uc uint8, pc uint8) bool {
-		if pc == '?' {
-			return true
-		}
-		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
-		} else {
-			return uc == pc
-		}
-	}
 
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
+	// the position after the last '*' found in the pattern and where the text that follows it was last tried
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
-			pIndex++
-			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
+	for uIndex < urlPathSegmentLen {
+		_, uSize := utf8.DecodeRuneInString(urlPathSegment[uIndex:])
+		if pIndex < patternSegmentLen {
+			if patternSegment[pIndex] == '*' {
+				pIndex++
+				pIndexCheckPoint = pIndex
+				uIndexCheckPoint = uIndex
+				continue
 			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
+			_, pSize := utf8.DecodeRuneInString(patternSegment[pIndex:])
+			uc := urlPathSegment[uIndex : uIndex+uSize]
+			pc := patternSegment[pIndex : pIndex+pSize]
+			if pc == "?" || uc == pc || (caseInsensitive && strings.EqualFold(uc, pc)) {
+				pIndex += pSize
+				uIndex += uSize
+				continue
 			}
+		}
 
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
-			}
-		} else {
-			if runesMatches(uc, pc) {
-				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
-			}
+		// no checkpoint, meaning that no greedy character found
+		if pIndexCheckPoint == -1 {
+			return false
 		}
+		_, uSize = utf8.DecodeRuneInString(urlPathSegment[uIndexCheckPoint:])
+		uIndexCheckPoint += uSize
+		pIndex = pIndexCheckPoint
+		uIndex = uIndexCheckPoint
 	}
-
+	for pIndex < patternSegmentLen && patternSegment[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == patternSegmentLen
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From d501bda91b28ace616f9bdabd107943103fb43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:11 +0000
Subject: [PATCH 04/30] fix: look up the most specific of all the patterns that
 match

The search gave up on siblings after a dead end, never came back to a
greedy segment and took the order of the patterns from whichever pattern
created a node first.
---
 router/path/matcher.go | 170 ++++++++++++++++++-----------------------
 router/path/pattern.go |  15 +++-
 2 files changed, 87 insertions(+), 98 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..1f2bdd8 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -6,11 +6,6 @@ import (
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -146,107 +141,92 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 }
 
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
-	if len(mc.PathSegments) > MaxPathSegments {
+	urlLen := len(mc.PathSegments)
+	if urlLen > MaxPathSegments {
 		return nil
 	}
-	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
+	if urlLen == 0 && m.rootPathMatcher != nil {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
+	s := search{
+		caseInsensitive: m.caseInsensitive,
+		urlPath:         urlPath,
+		urlSegments:     mc.PathSegments,
+	}
+	if !s.visit(m.trieRoot, 0) {
+		return nil
+	}
+	for i := 0; i < urlLen; i++ {
+		mc.PathSegments[i].matchType = s.bestMatchTypes[i]
+	}
+	mc.matchedPattern = s.bestPattern
+	return s.bestPattern
+}
+
+// search looks for the most specific pattern that matches the URL segments
+type search struct {
+	caseInsensitive bool
+	urlPath         string
+	urlSegments     []UrlSegment
+	// how the URL segments are matched by the trie branch that is explored
+	matchTypes [MaxPathSegments]MatchType
+	// the most specific pattern found so far and how the URL segments are matched by it
+	bestPattern    *Pattern
+	bestMatchTypes [MaxPathSegments]MatchType
+}
+
+// visit explores the descendants of a node that match the URL segments starting with urlSegmentIndex.
+// It returns true if at least one pattern was found
+func (s *search) visit(parent *node, urlSegmentIndex int) bool {
+	foundMatchType := MatchTypeUnknown
+	urlLen := len(s.urlSegments)
+	if urlSegmentIndex >= urlLen {
+		return false
+	}
+	for _, child := range parent.children {
+		matchType := child.segment.matchType
+		if foundMatchType != MatchTypeUnknown && matchType > foundMatchType {
+			// a more specific sibling leads to a match already
+			continue
+		}
+		if !child.canMatchPathWithLength(uint8(urlLen - urlSegmentIndex)) {
+			continue
+		}
+		if child.segment.matchUrlPathSegment(s.urlPath, &s.urlSegments[urlSegmentIndex], s.caseInsensitive) == MatchTypeUnknown {
+			continue
 		}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
-					}
-					goto END
-				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
+		var found bool
+		if matchType == MatchTypeMultipleSegments {
+			for i := urlSegmentIndex; i < urlLen; i++ {
+				if s.visit(child, i) {
+					found = true
 				}
-				treeDepth++
-				currentNode = childNode
-				goto END
+				s.matchTypes[i] = MatchTypeMultipleSegments
 			}
-		}
-
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
+			if child.isLeaf() {
+				s.accept(child.pattern)
+				found = true
 			}
-			urlSegmentIndex++
 		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
+			s.matchTypes[urlSegmentIndex] = matchType
+			if urlSegmentIndex < urlLen-1 {
+				found = s.visit(child, urlSegmentIndex+1)
+			} else if child.isLeaf() {
+				s.accept(child.pattern)
+				found = true
 			}
 		}
+		if found {
+			foundMatchType = matchType
+		}
+	}
+	return foundMatchType != MatchTypeUnknown
+}
+
+func (s *search) accept(pattern *Pattern) {
+	if s.bestPattern == nil || pattern.HighPriorityThan(s.bestPattern) {
+		s.bestPattern = pattern
+		s.bestMatchTypes = s.matchTypes
 	}
-	return nil
 }
diff --git a/router/path/pattern.go b/router/path/pattern.go
index 2a568b1..e104a45 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -68,11 +68,20 @@ type Pattern struct {
 	Attachment           any
 }
 
+// HighPriorityThan returns true if this pattern is more specific than the other one. The patterns are compared
+// segment by segment, and, in case of equality, by their raw values, so that the order to be total
 func (p *Pattern) HighPriorityThan(other *Pattern) bool {
-	if p.priority == other.priority {
-		return strings.Compare(p.RawValue, other.RawValue) < 0
+	segmentsLen := len(p.segments)
+	otherSegmentsLen := len(other.segments)
+	for i := 0; i < segmentsLen && i < otherSegmentsLen; i++ {
+		if p.segments[i].matchType != other.segments[i].matchType {
+			return p.segments[i].matchType < other.segments[i].matchType
+		}
+	}
+	if segmentsLen != otherSegmentsLen {
+		return segmentsLen > otherSegmentsLen
 	}
-	return p.priority < other.priority
+	return strings.Compare(p.RawValue, other.RawValue) < 0
 }
 
 func (p *Pattern) isGreedy() bool {
-- 
2.43.0


From 8dd8b2645c411a9a0942edb1d4f7934caf4f65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:05 +0000
Subject: [PATCH 05/30] fix: tell over-long request paths from / and keep
 positions beyond 65535

---
 router/path/matching_context.go | 14 ++++++++------
 router/path/pattern.go          |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..c0ffdb6 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex int
+	endIndex   int
 	matchType  MatchType
 }
 
@@ -88,6 +88,8 @@ func (mc *MatchingContext) PathVar(name string) string {
 	return ""
 }
 
+// ParseURLPath splits the request path in segments. If there are more than MaxPathSegments, the resulted
+// mc.PathSegments have more than MaxPathSegments elements too, so that no pattern to match
 func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	requestPath := requestUrl.Path
 	if len(requestPath) == 0 || requestPath == "/" {
@@ -112,8 +114,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: startIndex,
+					endIndex:   endIndex,
 				}
 				segmentsIndex++
 			}
@@ -126,7 +128,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 		if ch == '/' {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
+					mc.PathSegments = make([]UrlSegment, MaxPathSegments+1)
 					return
 				}
 			}
@@ -136,7 +138,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
+			mc.PathSegments = make([]UrlSegment, MaxPathSegments+1)
 			return
 		}
 	}
diff --git a/router/path/pattern.go b/router/path/pattern.go
index e104a45..7570534 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -21,7 +21,7 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
+		if urlSegment.endIndex-urlSegment.startIndex == len(s.val) {
 			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
 			if caseInsensitive {
 				if strings.EqualFold(urlSegmentVal, s.val) {
-- 
2.43.0


From 4e53360a0dc58ac278177bf258b5afdb2af99d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:22 +0000
Subject: [PATCH 06/30] fix: refuse every duplicate constrained variable and
 accept long patterns

Patterns with several greedy segments made the priority computation loop
for ever; the lookup explored the same greedy nodes over and over; a
pattern of 256 segments was taken for /.
---
 router/path/encode.go  | 61 +++++++++++++++++-------------------------
 router/path/matcher.go | 20 +++++++++++---
 router/path/pattern.go |  4 +--
 3 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..ae16abe 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -13,56 +13,43 @@ const (
 	MatchTypeMultipleSegments     = MatchType(6)
 )
 
+// computePriority encodes the segment match types in a number with MaxPathSegments digits, one digit for each segment.
+// The missing digits are filled by repeating the greedy segments, if there are, or by zeros
 func computePriority(segments []*segment) uint64 {
 	var priority uint64
 	var multiplePathsMatcherSegmentsCount int
 	digitsCount := len(segments)
+	if digitsCount > MaxPathSegments {
+		digitsCount = MaxPathSegments
+	}
 	for i := 0; i < digitsCount; i++ {
-		mt := segments[i].matchType
-		if mt == MatchTypeMultipleSegments {
+		if segments[i].matchType == MatchTypeMultipleSegments {
 			multiplePathsMatcherSegmentsCount++
 		}
-		priority = priority*10 + uint64(mt)
 	}
 
-	if multiplePathsMatcherSegmentsCount == 0 {
-		return priority * getDecimalDivider(MaxPathSegments-digitsCount)
-	} else {
-		digitsPerSegmentToAdd := (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
-		digitsPerSegmentReminderToAdd := (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
-
-		var getSplitIndex = func(nr uint64, dividerDigits int) int {
-			var splitIndex int
-			m := getDecimalDivider(dividerDigits)
-			for n := nr; n > 0; n = n / m {
-				if MatchType(n%10) == MatchTypeMultipleSegments {
-					break
-				}
-				splitIndex++
-			}
-			return splitIndex + dividerDigits
-		}
-
-		dividerDigits := 1
-		for i := 0; i < multiplePathsMatcherSegmentsCount; i++ {
-			splitIndex := getSplitIndex(priority, dividerDigits)
-			m := getDecimalDivider(splitIndex)
-			n := priority / m
-			r := priority % m
-			digitsToAdd := digitsPerSegmentToAdd
-			if i == multiplePathsMatcherSegmentsCount-1 {
-				digitsToAdd += digitsPerSegmentReminderToAdd
-			}
-
-			for j := 0; j < digitsToAdd; j++ {
-				n = n*10 + uint64(MatchTypeMultipleSegments)
+	var digitsPerSegmentToAdd int
+	var digitsPerSegmentReminderToAdd int
+	if multiplePathsMatcherSegmentsCount > 0 {
+		digitsPerSegmentToAdd = (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
+		digitsPerSegmentReminderToAdd = (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
+	}
+	for i := 0; i < digitsCount; i++ {
+		mt := segments[i].matchType
+		priority = priority*10 + uint64(mt)
+		if mt == MatchTypeMultipleSegments {
+			// the first greedy segment takes the reminder
+			for j := 0; j < digitsPerSegmentToAdd+digitsPerSegmentReminderToAdd; j++ {
+				priority = priority*10 + uint64(MatchTypeMultipleSegments)
 			}
-			priority = n*m + r
-			dividerDigits = splitIndex + digitsToAdd
+			digitsPerSegmentReminderToAdd = 0
 		}
+	}
 
-		return priority
+	if multiplePathsMatcherSegmentsCount == 0 {
+		return priority * getDecimalDivider(MaxPathSegments-digitsCount)
 	}
+	return priority
 }
 
 func getDecimalDivider(zeroCount int) uint64 {
diff --git a/router/path/matcher.go b/router/path/matcher.go
index 1f2bdd8..5dc6b22 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -76,7 +76,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
@@ -173,6 +173,13 @@ type search struct {
 	// the most specific pattern found so far and how the URL segments are matched by it
 	bestPattern    *Pattern
 	bestMatchTypes [MaxPathSegments]MatchType
+	// the greedy nodes already explored, to not explore them again for every greedy node that precedes them
+	visited map[visitedNode]bool
+}
+
+type visitedNode struct {
+	node            *node
+	urlSegmentIndex int
 }
 
 // visit explores the descendants of a node that match the URL segments starting with urlSegmentIndex.
@@ -199,9 +206,16 @@ func (s *search) visit(parent *node, urlSegmentIndex int) bool {
 		var found bool
 		if matchType == MatchTypeMultipleSegments {
 			for i := urlSegmentIndex; i < urlLen; i++ {
-				if s.visit(child, i) {
-					found = true
+				key := visitedNode{node: child, urlSegmentIndex: i}
+				childFound, visited := s.visited[key]
+				if !visited {
+					childFound = s.visit(child, i)
+					if s.visited == nil {
+						s.visited = make(map[visitedNode]bool)
+					}
+					s.visited[key] = childFound
 				}
+				found = found || childFound
 				s.matchTypes[i] = MatchTypeMultipleSegments
 			}
 			if child.isLeaf() {
diff --git a/router/path/pattern.go b/router/path/pattern.go
index 7570534..82232bc 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -113,7 +113,7 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 	}
 
 	var pathSegmentStart int
-	var pathSegmentsCount uint8
+	var pathSegmentsCount int
 	var captureVarsLen uint8
 	var lastSegmentMatchType MatchType
 	var maxSegmentMatchType MatchType
@@ -170,7 +170,7 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 		}
 	}
 
-	maxMatchableSegments := pathSegmentsCount
+	maxMatchableSegments := uint8(pathSegmentsCount)
 	if maxSegmentMatchType == MatchTypeMultipleSegments {
 		maxMatchableSegments = greedyPatternMaxMatchableSegments
 	}
-- 
2.43.0


From 06d6c3ea7ddd0b763a50779b43ae153fb3a88936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:56 +0000
Subject: [PATCH 07/30] fix: letters whose cases have different lengths match
 case-insensitively

---
 router/path/pattern.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 82232bc..fd428f6 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -21,16 +21,14 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if urlSegment.endIndex-urlSegment.startIndex == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
-- 
2.43.0


From 38cbfedb17281049f0f24e0dc6302633d691b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 08/30] fix: join prefixes and routes with one slash and never
 share a sub-router with its parent

---
 gofre.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gofre.go b/gofre.go
index a971934..0d44bd4 100644
--- a/gofre.go
+++ b/gofre.go
@@ -18,6 +18,7 @@ import (
 	"math/rand"
 	"net/http"
 	"net/http/pprof"
+	"strings"
 	"unsafe"
 )
 
@@ -164,11 +165,11 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-		pathPrefix:        m.resolvePath(pathPrefix),
+		pathPrefix:        m.resolvePath("/" + strings.Trim(pathPrefix, "/")),
 		router:            m.router,
 		commonMiddlewares: append([]middleware.Middleware(nil), m.commonMiddlewares...),
 		webConfig:         m.webConfig,
@@ -203,7 +204,7 @@ func (m *MuxHandler) HandleOAUTH2WithCustomPaths(initiatePath string,
 	authorizeMiddlewares []middleware.Middleware) {
 	cache := oauthConfig.CacheConfig.Cache
 	// initiate OAUTH flow handler
-	authorizationFlowBasePath := authorizeBasePath
+	authorizationFlowBasePath := strings.TrimRight(authorizeBasePath, "/")
 	m.HandleGet(initiatePath, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 		var provider oauth.Provider
 		if len(oauthConfig.Providers) == 1 {
@@ -307,13 +308,7 @@ func (m *MuxHandler) resolvePath(path string) string {
 		return pathPrefix
 	}
 
-	if pathPrefix[len(pathPrefix)-1] == '/' && path[0] == '/' {
-		return pathPrefix + path[1:]
-	} else if pathPrefix[len(pathPrefix)-1] != '/' && path[0] != '/' {
-		return pathPrefix + "/" + path
-	} else {
-		return pathPrefix + path
-	}
+	return strings.TrimRight(pathPrefix, "/") + "/" + strings.Trim(path, "/")
 }
 
 // EnableDebugEndpoints enable debug endpoints
-- 
2.43.0


From 0da8acda11118ff9079ec1c8c4540bda734d3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 09/30] fix: make the in-memory cache safe for concurrent use

---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From e5a01c63e38373deb359846eaff2bee5af595e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 10/30] fix: a CSRF nonce is spent once even by concurrent
 requests, and is found in the form

---
 middleware/csrf.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..61ffe93 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -47,12 +48,11 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
-				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+				if previousNonce == "" || !spendNonce(nonceCache, previousNonce) {
 					return nil, errors.ErrAccessDenied
 				}
-				nonceCache.Remove(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
@@ -68,6 +68,23 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 	}
 }
 
+// the nonces that are being spent by the requests in progress
+var spendingNonces sync.Map
+
+// spendNonce removes the nonce from the cache and returns true if it was there. When more requests present the same nonce
+// at the same time, at most one of them spends it
+func spendNonce(nonceCache cache.Cache, nonce string) bool {
+	if _, spending := spendingNonces.LoadOrStore(nonce, struct{}{}); spending {
+		return false
+	}
+	defer spendingNonces.Delete(nonce)
+	if !nonceCache.Contains(nonce) {
+		return false
+	}
+	nonceCache.Remove(nonce)
+	return true
+}
+
 func generateNonce() (string, error) {
 	var sb strings.Builder
 
-- 
2.43.0


From 940e941619b34911cc3f2291660f7d5087da6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 11/30] fix: recognise same-origin requests on non-default
 ports and check every requested header line

---
 middleware/cors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..afb6c6d 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -152,7 +152,7 @@ func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeade
 	}
 
 	// Section 6.2.4
-	accessControlRequestHeadersHeader := strings.TrimSpace(r.Header.Get(requestHeaderAccessControlRequestHeaders))
+	accessControlRequestHeadersHeader := strings.Join(r.Header.Values(requestHeaderAccessControlRequestHeaders), ",")
 	for _, h := range strings.Split(accessControlRequestHeadersHeader, ",") {
 		h = strings.TrimSpace(h)
 		if h != "" && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {
@@ -304,7 +304,7 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
+	sb.WriteString(strings.TrimSuffix(strings.TrimSuffix(reqUrl.Host, reqUrl.Port()), ":"))
 
 	port := reqUrl.Port()
 	if port == "" {
-- 
2.43.0


From 45910a2aaeeb5046726373e0ba6f873018970e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 12/30] fix: compute the security headers once instead of in
 every request

---
 middleware/security.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..810a55b 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// the values are computed once, because the requests that share the config run concurrently
+	stsHeaderValue := config.STS.getHeaderValue()
+	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
@@ -90,12 +93,12 @@ func SecurityHeaders(config SecurityHeadersConfig) Middleware {
 			// HSTS
 			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"
 			if config.STS.Enabled && isRequestSecure {
-				httpResponse.Headers().Set(stsHeaderName, config.STS.getHeaderValue())
+				httpResponse.Headers().Set(stsHeaderName, stsHeaderValue)
 			}
 
 			// anti click-jacking
 			if config.ClickJacking.Enabled {
-				httpResponse.Headers().Set(antiClickJackingHeaderName, config.ClickJacking.getAntiClickJackingHeaderValue())
+				httpResponse.Headers().Set(antiClickJackingHeaderName, antiClickJackingHeaderValue)
 			}
 
 			// Block content type sniffing
-- 
2.43.0


From 3b5cb2b0959bfa648011b1bacbefa19342651dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:05 +0000
Subject: [PATCH 13/30] fix: report panic(nil) as an error instead of an empty
 success

---
 middleware/panic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/panic.go b/middleware/panic.go
index 64c7325..43c976b 100644
--- a/middleware/panic.go
+++ b/middleware/panic.go
@@ -14,12 +14,15 @@ import (
 func PanicRecover() Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
+			completed := false
 			defer func() {
-				if r := recover(); r != nil {
+				// recover returns nil for panic(nil) in modules that declare a go version before 1.21
+				if r := recover(); r != nil || !completed {
 					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))
 				}
 			}()
 			resp, err = handler(ctx, mc)
+			completed = true
 			return resp, err
 		}
 	}
-- 
2.43.0


From 0b667101aac1521c047ba595648627a5da244bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 14/30] fix: compressed responses keep their headers, drop a
 stale Content-Length and are flushed

---
 response/compress.go | 61 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..75ab7c5 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -50,24 +50,24 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 	if compressAlg == "gzip" {
 		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
 		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				encoding:           compressAlg,
 			}
-			defer cw.Close()
+			w = crw
+			defer crw.close()
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
 		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				encoding:           compressAlg,
 			}
-			defer cw.Close()
+			w = crw
+			defer crw.close()
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -93,25 +93,62 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 type compressWriter interface {
 	Write(bytes []byte) (int, error)
 	Flush() error
+	Close() error
 }
 
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
 	compressWriter     compressWriter
+	encoding           string
+	started            bool
+	uncompressed       bool
 }
 
 func (c *compressResponseWriter) Header() http.Header {
 	return c.origResponseWriter.Header()
 }
 
+// WriteHeader announces the encoding together with the status. A response without body and one that is already encoded
+// are left as they are.
+func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	if statusCode >= 200 && !c.started {
+		c.started = true
+		header := c.Header()
+		if len(header.Get(contentEncodingHeaderName)) > 0 || statusCode == http.StatusNoContent || statusCode == http.StatusNotModified {
+			c.uncompressed = true
+		} else {
+			// the length of the compressed body is not known
+			header.Del("Content-Length")
+			header.Set(contentEncodingHeaderName, c.encoding)
+		}
+	}
+	c.origResponseWriter.WriteHeader(statusCode)
+}
+
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	if !c.started {
+		c.WriteHeader(http.StatusOK)
+	}
+	if c.uncompressed {
+		return c.origResponseWriter.Write(bytes)
+	}
 	return c.compressWriter.Write(bytes)
 }
 
-func (c *compressResponseWriter) WriteHeader(statusCode int) {
-	c.origResponseWriter.WriteHeader(statusCode)
+func (c *compressResponseWriter) Flush() {
+	if !c.started {
+		c.WriteHeader(http.StatusOK)
+	}
+	if !c.uncompressed {
+		c.compressWriter.Flush()
+	}
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
 }
 
-func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+func (c *compressResponseWriter) close() {
+	if c.started && !c.uncompressed {
+		c.compressWriter.Close()
+	}
 }
-- 
2.43.0


From 6675e7d81f57eda81bec41b5014205cc39c98b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/30] fix: a written response lets go of the containers it
 gave back to the pool

---
 response/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..1f0d717 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -39,9 +39,11 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 	defer func() {
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
+			r.HttpHeaders = nil
 		}
 		if r.HttpCookies != nil {
 			r.HttpCookies.Release()
+			r.HttpCookies = nil
 		}
 	}()
 
-- 
2.43.0


From 387d8521a0f0968d17c373a1e6a44026bf086f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 16/30] fix: redirects send the headers and cookies set on them

---
 response/redirect.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..2e87c67 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,17 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	// Write the cookies
+	for _, cookie := range r.HttpCookies {
+		http.SetCookie(w, cookie)
+	}
+
+	// Write the headers
+	header := w.Header()
+	for k, v := range r.HttpHeaders {
+		header.Set(k, v)
+	}
+
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From 32b26a4c3d7d07f0eef855c920a8cb4cccead178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 17/30] fix: send the caching headers of an event stream and
 return when its request is cancelled

---
 response/sse.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..034aa30 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -73,34 +73,36 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 		return ErrNotHttp2Request
 	}
 
+	header := w.Header()
+	header.Set("Cache-Control", "no-cache")
+	header.Set("Connection", "keep-alive")
+
 	// write the headers
 	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
 		return err
 	}
 
-	header := w.Header()
-	header.Set("Cache-Control", "no-cache")
-	header.Set("Connection", "keep-alive")
-
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
 	reqCtx := mc.R.Context()
 
 	// read and write the events
-	for evt := range r.EventGenerator(reqCtx, lastEventId) {
+	events := r.EventGenerator(reqCtx, lastEventId)
+	for {
 		select {
 		case <-reqCtx.Done():
 			return nil
-		default:
+		case evt, ok := <-events:
+			if !ok || reqCtx.Err() != nil {
+				return nil
+			}
 			if err := writeTextResponse(w, evt.String()); err != nil {
 				return nil
 			}
 			r.flushResponse(w)
 		}
 	}
-
-	return nil
 }
 
 func (r *HttpSSEResponse) flushResponse(w http.ResponseWriter) {
-- 
2.43.0


From 442a129666b5c6f9302c62a5d0ee395d11dbf825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 18/30] fix: a provider answer without the token or the user's
 identity as text is an error, not a panic

---
 auth/oauth/github.go | 20 ++++++++++++--------
 auth/oauth/google.go | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..ef3ea87 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -82,10 +82,13 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to decode the OAUTH2 access token response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	token, _ := result["access_token"].(string)
+	tokenType, _ := result["token_type"].(string)
+	// a 2xx answer without the token is an error too (GitHub reports its errors with the status 200)
+	if resp.StatusCode/100 == 2 && token != "" && tokenType != "" {
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -122,12 +125,13 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	}
 
 	if resp.StatusCode/100 == 2 {
-		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
-			id = email
-		} else {
-			id = result["login"].(string)
+		id, _ := result["email"].(string)
+		if id == "" {
+			id, _ = result["login"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..3acf022 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -103,10 +103,13 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to decode the OAUTH2 access token response from: %s, err: %w", p.Name(), err)
 	}
 
-	if resp.StatusCode/100 == 2 {
+	token, _ := result["access_token"].(string)
+	tokenType, _ := result["token_type"].(string)
+	// a 2xx answer without the token is an error too (GitHub reports its errors with the status 200)
+	if resp.StatusCode/100 == 2 && token != "" && tokenType != "" {
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -151,12 +154,13 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	}
 
 	if resp.StatusCode/100 == 2 {
-		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
-			id = email
-		} else {
-			id = result["id"].(string)
+		id, _ := result["email"].(string)
+		if id == "" {
+			id, _ = result["id"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From e8f55c1e4ce0b5e3e8a8f839285900d1bc7f61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 19/30] fix: building a login address never writes to the
 configured scopes, and GitHub gets the profile scope on its own too

---
 auth/oauth/github.go | 4 ++--
 auth/oauth/google.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index ef3ea87..19c202e 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -40,7 +40,7 @@ func (p GitHubProvider) Name() string {
 }
 
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...) // a copy, appending must not write to the configuration
 	if includeUserInfoProfileScope {
 		scopes = append(scopes, GitHubUserInfoProfileScopes...)
 	}
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 3acf022..63050b9 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -46,7 +46,7 @@ func (p GoogleProvider) Name() string {
 }
 
 func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...) // a copy, appending must not write to the configuration
 	if includeUserInfoProfileScope {
 		//openid email profile
 		scopes = append(scopes, GoogleUserInfoScopes...)
-- 
2.43.0


From a7f8d84673d5af60df77511ef9c695892497e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 20/30] fix: JSON error messages keep every byte when the text
 starts with a non-ASCII letter

---
 response/json.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..0aac0e5 100644
--- a/response/json.go
+++ b/response/json.go
@@ -6,7 +6,8 @@ import (
 	"github.com/ixtendio/gofre/router/path"
 
 	"net/http"
-	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,9 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	first, size := utf8.DecodeRuneInString(errMsg)
+	if first == utf8.RuneError {
+		return errMsg
+	}
+	return string(unicode.ToUpper(first)) + errMsg[size:]
 }
-- 
2.43.0


From 058868df3c8ccec9389289e7e22069daf84dd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 21/30] fix: middlewares that set headers or cookies no longer
 crash a hijacking response

---
 response/hijack.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/response/hijack.go b/response/hijack.go
index 87628ee..501b0cf 100644
--- a/response/hijack.go
+++ b/response/hijack.go
@@ -10,7 +10,10 @@ import (
 )
 
 // HttpHijackConnectionResponse implements response.HttpResponse and provides hijacking capability for the current TCP connection
+// The headers and cookies set on it (by middlewares, for example) are never sent, because the application takes over the connection
 type HttpHijackConnectionResponse struct {
+	headers        HttpHeaders
+	cookies        HttpCookies
 	hjCallbackFunc func(net.Conn, *bufio.ReadWriter, error)
 }
 
@@ -25,11 +28,17 @@ func (r *HttpHijackConnectionResponse) StatusCode() int {
 }
 
 func (r *HttpHijackConnectionResponse) Headers() HttpHeaders {
-	return nil
+	if r.headers == nil {
+		r.headers = HttpHeaders{}
+	}
+	return r.headers
 }
 
 func (r *HttpHijackConnectionResponse) Cookies() HttpCookies {
-	return nil
+	if r.cookies == nil {
+		r.cookies = HttpCookies{}
+	}
+	return r.cookies
 }
 
 func (r *HttpHijackConnectionResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
-- 
2.43.0


From f2ccd6ff3ec809926f80fc699f1787b3b130bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 22/30] fix: a connection can be hijacked behind the
 compression middleware

---
 response/compress.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index 75ab7c5..043284a 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -1,11 +1,13 @@
 package response
 
 import (
+	"bufio"
 	"compress/flate"
 	"compress/gzip"
 	"errors"
 	"github.com/ixtendio/gofre/router/path"
 
+	"net"
 	"net/http"
 	"strings"
 )
@@ -147,6 +149,14 @@ func (c *compressResponseWriter) Flush() {
 	}
 }
 
+// Hijack lets the application take over the connection, nothing is compressed then
+func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	if hijacker, ok := c.origResponseWriter.(http.Hijacker); ok {
+		return hijacker.Hijack()
+	}
+	return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
+}
+
 func (c *compressResponseWriter) close() {
 	if c.started && !c.uncompressed {
 		c.compressWriter.Close()
-- 
2.43.0


From 009772d9f7582c9aa74dcd03cbfb1b4756a7bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 23/30] fix: the context path and the assets mapping may be
 written with or without slashes

---
 gofre.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gofre.go b/gofre.go
index 0d44bd4..74ee9ec 100644
--- a/gofre.go
+++ b/gofre.go
@@ -124,13 +124,15 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 	}
 	r := router.NewRouter(config.CaseInsensitivePathMatch, config.ErrLogFunc)
 	if config.ResourcesConfig != nil {
-		contextPath := config.ContextPath
-		if contextPath == "/" {
-			contextPath = ""
+		// the slashes around the two configured paths are optional
+		assetsPath := "/"
+		for _, p := range []string{config.ContextPath, config.ResourcesConfig.AssetsMappingPath} {
+			if p = strings.Trim(p, "/"); p != "" {
+				assetsPath += p + "/"
+			}
 		}
-		assetsPath := config.ResourcesConfig.AssetsMappingPath
 		assetsDirPath := config.ResourcesConfig.AssetsDirPath
-		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(http.StripPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))
+		r.Handle(http.MethodGet, assetsPath+"**", handler.Handler2Handler(http.StripPrefix(assetsPath, http.FileServer(http.Dir(assetsDirPath)))))
 	}
 	return &MuxHandler{
 		router:    r,
-- 
2.43.0


From 25fdd28fe7abb91a20c081030ae4902aef5cb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 24/30] fix: the form sent to GitHub for the access token is
 declared as a form

---
 auth/oauth/github.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 19c202e..461c361 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -69,6 +69,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to create the request to get the OAUTH2 access token from: %s, err: %w", p.Name(), err)
 	}
 
+	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 	req.Header.Set("Accept", "application/json")
 	resp, err := HttpClient.Do(req)
 
-- 
2.43.0


From e91710f2a35372a1424dc9bb0757506d1d06bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 25/30] fix: the common middlewares apply to the debug
 endpoints too

---
 gofre.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gofre.go b/gofre.go
index 74ee9ec..290bab1 100644
--- a/gofre.go
+++ b/gofre.go
@@ -316,18 +316,18 @@ func (m *MuxHandler) resolvePath(path string) string {
 // EnableDebugEndpoints enable debug endpoints
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/trace"), handler.HandlerFunc2Handler(pprof.Trace))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/vars"), handler.Handler2Handler(expvar.Handler()))
+	m.HandleGet("/debug/pprof/", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/allocs", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/block", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/goroutine", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/heap", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/mutex", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/threadcreate", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/cmdline", handler.HandlerFunc2Handler(pprof.Cmdline))
+	m.HandleGet("/debug/pprof/profile", handler.HandlerFunc2Handler(pprof.Profile))
+	m.HandleGet("/debug/pprof/symbol", handler.HandlerFunc2Handler(pprof.Symbol))
+	m.HandleGet("/debug/pprof/trace", handler.HandlerFunc2Handler(pprof.Trace))
+	m.HandleGet("/debug/vars", handler.Handler2Handler(expvar.Handler()))
 }
 
 func (m *MuxHandler) ServeHTTP(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From 80d30dfa44345feaf2bf88f3f748b92f2a29ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 26/30] fix: the debug endpoints serve the profile they name
 below a path prefix too

---
 gofre.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gofre.go b/gofre.go
index 290bab1..cd6219c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -316,13 +316,13 @@ func (m *MuxHandler) resolvePath(path string) string {
 // EnableDebugEndpoints enable debug endpoints
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
-	m.HandleGet("/debug/pprof/", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/allocs", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/block", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/goroutine", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/heap", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/mutex", handler.HandlerFunc2Handler(pprof.Index))
-	m.HandleGet("/debug/pprof/threadcreate", handler.HandlerFunc2Handler(pprof.Index))
+	m.HandleGet("/debug/pprof/", handler.HandlerFunc2Handler(pprofIndex("")))
+	m.HandleGet("/debug/pprof/allocs", handler.HandlerFunc2Handler(pprofIndex("allocs")))
+	m.HandleGet("/debug/pprof/block", handler.HandlerFunc2Handler(pprofIndex("block")))
+	m.HandleGet("/debug/pprof/goroutine", handler.HandlerFunc2Handler(pprofIndex("goroutine")))
+	m.HandleGet("/debug/pprof/heap", handler.HandlerFunc2Handler(pprofIndex("heap")))
+	m.HandleGet("/debug/pprof/mutex", handler.HandlerFunc2Handler(pprofIndex("mutex")))
+	m.HandleGet("/debug/pprof/threadcreate", handler.HandlerFunc2Handler(pprofIndex("threadcreate")))
 	m.HandleGet("/debug/pprof/cmdline", handler.HandlerFunc2Handler(pprof.Cmdline))
 	m.HandleGet("/debug/pprof/profile", handler.HandlerFunc2Handler(pprof.Profile))
 	m.HandleGet("/debug/pprof/symbol", handler.HandlerFunc2Handler(pprof.Symbol))
@@ -330,6 +330,18 @@ func (m MuxHandler) EnableDebugEndpoints() {
 	m.HandleGet("/debug/vars", handler.Handler2Handler(expvar.Handler()))
 }
 
+// pprofIndex serves the profile with the given name, or the list of the profiles if the name is empty.
+// pprof.Index looks for the name in a request path that starts with /debug/pprof/, whatever the path prefix of the endpoint is
+func pprofIndex(profileName string) http.HandlerFunc {
+	return func(w http.ResponseWriter, r *http.Request) {
+		profileUrl := *r.URL
+		profileUrl.Path = "/debug/pprof/" + profileName
+		r = r.WithContext(r.Context())
+		r.URL = &profileUrl
+		pprof.Index(w, r)
+	}
+}
+
 func (m *MuxHandler) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	m.router.ServeHTTP(w, req)
 }
-- 
2.43.0


From d9b65b9b032944c3c11aa8ed70a55854c5b9e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:46 +0000
Subject: [PATCH 27/30] fix: draw the OAUTH2 state from the cryptographic
 random source

---
 gofre.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index cd6219c..60fd1b1 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,6 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
 	"net/http"
 	"net/http/pprof"
 	"strings"
@@ -366,8 +366,12 @@ var uniqueIdFunc = generateUniqueId
 
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
+	// the values are secrets (the OAUTH2 state), so they have to be unpredictable
+	if _, err := rand.Read(b); err != nil {
+		panic(fmt.Errorf("failed to read random data, err: %w", err))
+	}
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		b[i] = randLetters[int(b[i])%len(randLetters)]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From 47eaa1b2a6c07f83050714c01fd92dba174a1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 28/30] fix: Config returns a copy of the resources
 configuration too

---
 gofre.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 60fd1b1..6e724f0 100644
--- a/gofre.go
+++ b/gofre.go
@@ -142,7 +142,12 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 
 // Config returns a Config copy
 func (m *MuxHandler) Config() Config {
-	return *m.webConfig
+	config := *m.webConfig
+	if config.ResourcesConfig != nil {
+		resourcesConfig := *config.ResourcesConfig
+		config.ResourcesConfig = &resourcesConfig
+	}
+	return config
 }
 
 // ExecutableTemplate returns the response.ExecutableTemplate from ResourcesConfig or nil
-- 
2.43.0


From 63c010844d5a19d06b2640a8c15f5660c2d174fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 29/30] fix: a header set by a middleware replaces the one set
 under another spelling of its name

---
 middleware/cors.go   | 8 +++++---
 response/response.go | 7 +++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index afb6c6d..1e32a88 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -203,9 +203,11 @@ func addStandardCorsHeaders(r *http.Request, responseHeaders response.HttpHeader
 
 func addVaryHeader(responseHeaders response.HttpHeaders, name string) {
 	var varyHeaders []string
-	if vh, found := responseHeaders[varyHeader]; found && len(vh) > 0 {
-		for _, v := range strings.Split(vh, ",") {
-			varyHeaders = append(varyHeaders, strings.TrimSpace(v))
+	for k, vh := range responseHeaders {
+		if strings.EqualFold(k, varyHeader) && len(vh) > 0 {
+			for _, v := range strings.Split(vh, ",") {
+				varyHeaders = append(varyHeaders, strings.TrimSpace(v))
+			}
 		}
 	}
 	if name == "*" || len(varyHeaders) == 0 {
diff --git a/response/response.go b/response/response.go
index 14c92b4..d1366eb 100644
--- a/response/response.go
+++ b/response/response.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"reflect"
+	"strings"
 	"sync"
 	"unsafe"
 )
@@ -24,7 +25,13 @@ var httpHeadersPool = sync.Pool{
 // HttpHeaders is a map with custom headers
 type HttpHeaders map[string]string
 
+// Set sets the value of a header, replacing the one that was set under another spelling of the same name
 func (h HttpHeaders) Set(key string, val string) {
+	for k := range h {
+		if k != key && strings.EqualFold(k, key) {
+			delete(h, k)
+		}
+	}
 	h[key] = val
 }
 
-- 
2.43.0


From aecf9fc6ccac1931e8ff5287af5cdcde9f993f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:24 +0000
Subject: [PATCH 30/30] fix: a compressed response reports the failure of its
 connection

---
 response/compress.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 043284a..7c06cf7 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -45,7 +45,7 @@ func (r *HttpCompressResponse) Cookies() HttpCookies {
 	return r.httpResponse.Cookies()
 }
 
-func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) (writeErr error) {
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
 
@@ -58,7 +58,11 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				encoding:           compressAlg,
 			}
 			w = crw
-			defer crw.close()
+			defer func() {
+				if closeErr := crw.close(); writeErr == nil {
+					writeErr = closeErr
+				}
+			}()
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
@@ -69,7 +73,11 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				encoding:           compressAlg,
 			}
 			w = crw
-			defer crw.close()
+			defer func() {
+				if closeErr := crw.close(); writeErr == nil {
+					writeErr = closeErr
+				}
+			}()
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -157,8 +165,10 @@ func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
 }
 
-func (c *compressResponseWriter) close() {
+// close sends what is still in the compressor
+func (c *compressResponseWriter) close() error {
 	if c.started && !c.uncompressed {
-		c.compressWriter.Close()
+		return c.compressWriter.Close()
 	}
+	return nil
 }
-- 
2.43.0

