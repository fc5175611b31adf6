From c6355a1aae1117324f8e6a2ab0a2e97b7ed15ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 01/40] fix: restore the zero branch of a PatriciaTrieNode when
 the zero branch was saved

---
 filtering/patricia_trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 85dfca7..1c17e41 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -171,7 +171,7 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	if err = dec.Decode(&hasZero); err != nil {
 		return
 	}
-	if hasOne {
+	if hasZero {
 		err = dec.Decode(&ptn.zero)
 	} else {
 		ptn.zero = nil
-- 
2.43.0


From 809360591d05e3affe1b2dc30d3ac82601d33547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 02/40] fix: restore the subscriptions of a LegacyEngine from
 its saved form

---
 filtering/legacy_engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 9b65599..0c942bc 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -152,6 +152,7 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	filters := Subscriptions{}
 	for i := 0; i < legacyEngineSize; i++ {
 		var f string
 		// filter
@@ -163,13 +164,17 @@ func (le *LegacyEngine) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		var reportURIs []string
-		for j := 0; j < legacyEngineSize; j++ {
+		for j := 0; j < reportURIsSize; j++ {
 			// reportURI
 			var dest string
-			err = dec.Decode(&dest)
+			if err = dec.Decode(&dest); err != nil {
+				return
+			}
 			reportURIs = append(reportURIs, dest)
 		}
+		filters[f] = reportURIs
 	}
+	le.filters = filters
 
 	// tdt.Core
 	le.tdtCore = tdt.NewCore()
-- 
2.43.0


From ff750cf348a1c1787919ec5fdae32742e9146a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 03/40] fix: LegacyEngine.AddSubscription must not keep the
 caller's slices

---
 filtering/legacy_engine.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 0c942bc..ef18e1f 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -19,13 +19,12 @@ type LegacyEngine struct {
 // AddSubscription adds a set of subscriptions if not exists yet
 func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
-			le.filters[f] = sub[f]
-		} else {
-			for _, dest := range sub[f] {
-				if stringIndexInSlice(dest, reportURIs) < 0 {
-					le.filters[f] = append(le.filters[f], dest)
-				}
+		if _, ok := le.filters[f]; !ok {
+			le.filters[f] = []string{}
+		}
+		for _, dest := range sub[f] {
+			if stringIndexInSlice(dest, le.filters[f]) < 0 {
+				le.filters[f] = append(le.filters[f], dest)
 			}
 		}
 	}
-- 
2.43.0


From 5656bdc0c73f0ef25a011335abd223be5ef5c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 04/40] fix: LegacyEngine.DeleteSubscription must index the
 current slice when deleting several patterns

---
 filtering/legacy_engine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index ef18e1f..27adf20 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -33,12 +33,12 @@ func (le *LegacyEngine) AddSubscription(sub Subscriptions) {
 // DeleteSubscription deletes a set of subscriptions if already exist
 func (le *LegacyEngine) DeleteSubscription(sub Subscriptions) {
 	for _, f := range sub.Keys() {
-		if reportURIs, ok := le.filters[f]; !ok {
+		if _, ok := le.filters[f]; !ok {
 			continue
 		} else {
 			for _, dest := range sub[f] {
-				if i := stringIndexInSlice(dest, reportURIs); i > -1 {
-					le.filters[f] = append(reportURIs[:i], reportURIs[i+1:]...)
+				if i := stringIndexInSlice(dest, le.filters[f]); i > -1 {
+					le.filters[f] = append(le.filters[f][:i], le.filters[f][i+1:]...)
 				}
 			}
 			if len(le.filters[f]) == 0 {
-- 
2.43.0


From f552c889eb9b37a86e409a7ba1abc6ba1b824fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 05/40] fix: NewPatriciaTrie must keep a subscription that is
 the common prefix of all

---
 filtering/patricia_trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 1c17e41..abd250b 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -438,6 +438,10 @@ func NewPatriciaTrie(sub Subscriptions) Engine {
 	}
 	pt.root = &PatriciaTrieNode{}
 	pt.root.filterObject = NewFilter(p1, 0)
+	// check if the common prefix matches whole filter
+	if psub, ok := bsub[p1]; ok {
+		pt.root.reportURI = psub.ReportURI
+	}
 	pt.root.build(p1, bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 3c9eb203dd7d086a6416fe77f7f92e9ac371c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 06/40] fix: PatriciaTrieNode.add must keep the existing
 filters when a prefix of them is added

---
 filtering/patricia_trie.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index abd250b..48c55da 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -204,7 +204,14 @@ func (ptn *PatriciaTrieNode) add(fs string, reportURI string) {
 		ptn.reportURI = ""
 		currentOffset := ptn.filterObject.Offset
 		ptn.filterObject = NewFilter(newCommonPrefix, currentOffset)
-		if ncpLength >= len(fs) {
+		if ncpLength >= len(fs) { // fs is a prefix of the current filter
+			ptn.reportURI = reportURI
+			ptn.one, ptn.zero = nil, nil
+			if newNode.filterObject.String[0] == '1' {
+				ptn.one = newNode
+			} else {
+				ptn.zero = newNode
+			}
 			return
 		}
 		switch fs[ncpLength] {
-- 
2.43.0


From 5c6ed895b8af1ae680c2b6bc9d4e653881b4a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 07/40] fix: PatriciaTrieNode.delete must clear a leaf root and
 respect the reportURI

---
 filtering/patricia_trie.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 48c55da..0902a58 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -321,6 +321,9 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 
 	// This is the filter to delete
 	if fs == ptn.filterObject.String {
+		if ptn.reportURI != reportURI { // registered for another reportURI
+			return
+		}
 		if ptn.one != nil && ptn.zero != nil { // node in the middle
 			ptn.reportURI = ""
 		} else if ptn.one != nil { // has only one node
@@ -335,6 +338,8 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 			ptn.reportURI = ptn.zero.reportURI
 			ptn.one = ptn.zero.one
 			ptn.zero = ptn.zero.zero
+		} else { // leaf without a parent to unlink it
+			ptn.reportURI = ""
 		}
 		return //end
 	}
@@ -345,6 +350,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '1':
 			if ptn.one != nil {
 				if fs[ptn.filterObject.Size:] == ptn.one.filterObject.String &&
+					ptn.one.reportURI == reportURI &&
 					ptn.one.one == nil && ptn.one.zero == nil {
 					ptn.one = nil
 				} else {
@@ -354,6 +360,7 @@ func (ptn *PatriciaTrieNode) delete(fs string, reportURI string) {
 		case '0':
 			if ptn.zero != nil {
 				if fs[ptn.filterObject.Size:] == ptn.zero.filterObject.String &&
+					ptn.zero.reportURI == reportURI &&
 					ptn.zero.one == nil && ptn.zero.zero == nil {
 					ptn.zero = nil
 				} else {
-- 
2.43.0


From 27dbfd9d7b687baa86c2c4623a116a117be85333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 08/40] fix: FilterObject.Match must not read outside a short
 ID

---
 filtering/filter_object.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filtering/filter_object.go b/filtering/filter_object.go
index f047b0e..cd75e1d 100644
--- a/filtering/filter_object.go
+++ b/filtering/filter_object.go
@@ -56,6 +56,9 @@ func (f *FilterObject) HasByteAt(bo int) bool {
 
 // Match returns true if the id is captured by this filter
 func (f *FilterObject) Match(id []byte) bool {
+	if len(id) < f.ByteOffset+f.ByteSize { // the id is too short
+		return false
+	}
 	for i := 0; i < f.ByteSize; i++ {
 		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
 			return false
-- 
2.43.0


From 7ec01251aeb2c4fc795359147a01742346e82ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 09/40] fix: an invalid pattern must not become a filter
 matching everything

---
 filtering/subscriptions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index ddbdfa4..28281fc 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -129,6 +129,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 			pfs, err := tdt.MakePrefixFilterString(tf[0], fields)
 			if err != nil {
 				log.Print(err)
+				continue
 			}
 			bsub[pfs] = &PartialSubscription{
 				Offset:    0,
-- 
2.43.0


From 20d9557c726ec1d015ef042ab0df4a2a66ea699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 10/40] fix: accept patterns case-insensitively like
 LoadSubscriptionsFromCSVFile does

---
 filtering/subscriptions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 28281fc..2301e8c 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -121,7 +121,7 @@ func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
 	for reportURI, patterns := range sub {
 		for _, pat := range patterns {
-			tf := strings.Split(strings.TrimPrefix(pat, "urn:epc:pat:"), ":")
+			tf := strings.Split(strings.TrimPrefix(strings.ToLower(pat), "urn:epc:pat:"), ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
 			}
-- 
2.43.0


From 90fa3af2f540e5f2e3be954a02afa715cbc1dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 11/40] fix: ToByteSubscriptions must not depend on the map
 iteration order

---
 filtering/subscriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 2301e8c..33b67f5 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -119,8 +119,8 @@ func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
 // ToByteSubscriptions preprocess the subscription and convert them in bytes
 func (sub Subscriptions) ToByteSubscriptions() ByteSubscriptions {
 	bsub := ByteSubscriptions{}
-	for reportURI, patterns := range sub {
-		for _, pat := range patterns {
+	for _, reportURI := range sub.Keys() {
+		for _, pat := range sub[reportURI] {
 			tf := strings.Split(strings.TrimPrefix(strings.ToLower(pat), "urn:epc:pat:"), ":")
 			if len(tf) != 2 { // should only containts a type and fields
 				continue
-- 
2.43.0


From 0bdddffdf80c0533a8ad07d4183b32b487d0e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 12/40] fix: UnmarshalBinary must replace the previous content

---
 filtering/list.go          | 1 +
 filtering/patricia_trie.go | 3 +++
 filtering/splay_tree.go    | 3 +++
 filtering/subscriptions.go | 6 ++++++
 4 files changed, 13 insertions(+)

diff --git a/filtering/list.go b/filtering/list.go
index 1a9a8e1..c70d0d0 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -135,6 +135,7 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 
+	list.filters = nil
 	for i := 0; i < listSize; i++ {
 		em := ExactMatch{}
 		// Notify
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index 0902a58..b876e8f 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -139,6 +139,9 @@ func (ptn *PatriciaTrieNode) MarshalBinary() (_ []byte, err error) {
 func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 	dec := gob.NewDecoder(bytes.NewReader(data))
 
+	// forget the previous content
+	*ptn = PatriciaTrieNode{}
+
 	// reportURIs
 	if err = dec.Decode(&ptn.reportURI); err != nil {
 		return
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 6e9b33a..8a23ff1 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -139,6 +139,9 @@ func (stn *SplayTreeNode) MarshalBinary() (_ []byte, err error) {
 func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 	dec := gob.NewDecoder(bytes.NewReader(data))
 
+	// forget the previous content
+	*stn = SplayTreeNode{}
+
 	// reportURI
 	if err = dec.Decode(&stn.reportURI); err != nil {
 		return
diff --git a/filtering/subscriptions.go b/filtering/subscriptions.go
index 33b67f5..0854e97 100644
--- a/filtering/subscriptions.go
+++ b/filtering/subscriptions.go
@@ -85,6 +85,11 @@ func (sub Subscriptions) MarshalBinary() (_ []byte, err error) {
 func (sub Subscriptions) UnmarshalBinary(data []byte) (err error) {
 	dec := gob.NewDecoder(bytes.NewReader(data))
 
+	// forget the previous content
+	for fs := range sub {
+		delete(sub, fs)
+	}
+
 	// size of subscriptions
 	var subSize int
 	if err = dec.Decode(&subSize); err != nil {
@@ -214,6 +219,7 @@ func (psub *PartialSubscription) UnmarshalBinary(data []byte) (err error) {
 	}
 
 	// Subset
+	psub.Subset = nil
 	if err = dec.Decode(&psub.Subset); err != nil {
 		return
 	}
-- 
2.43.0


From 3ccc0f4fcd31eef37cc028771fb04430672d9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 13/40] fix: UnmarshalBinary must not drop decoding errors

---
 filtering/list.go          |  4 +++-
 filtering/patricia_trie.go | 12 +++++++++---
 filtering/splay_tree.go    | 12 +++++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/filtering/list.go b/filtering/list.go
index c70d0d0..e1f5a39 100644
--- a/filtering/list.go
+++ b/filtering/list.go
@@ -143,7 +143,9 @@ func (list *List) UnmarshalBinary(data []byte) (err error) {
 			return
 		}
 		// Filter
-		err = dec.Decode(&em.filter)
+		if err = dec.Decode(&em.filter); err != nil {
+			return
+		}
 		list.filters = append(list.filters, &em)
 	}
 
diff --git a/filtering/patricia_trie.go b/filtering/patricia_trie.go
index b876e8f..7f29b36 100644
--- a/filtering/patricia_trie.go
+++ b/filtering/patricia_trie.go
@@ -153,7 +153,9 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasFilter {
-		err = dec.Decode(&ptn.filterObject)
+		if err = dec.Decode(&ptn.filterObject); err != nil {
+			return
+		}
 	} else {
 		ptn.filterObject = nil
 	}
@@ -164,7 +166,9 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasOne {
-		err = dec.Decode(&ptn.one)
+		if err = dec.Decode(&ptn.one); err != nil {
+			return
+		}
 	} else {
 		ptn.one = nil
 	}
@@ -175,7 +179,9 @@ func (ptn *PatriciaTrieNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasZero {
-		err = dec.Decode(&ptn.zero)
+		if err = dec.Decode(&ptn.zero); err != nil {
+			return
+		}
 	} else {
 		ptn.zero = nil
 	}
diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 8a23ff1..48a9313 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -153,7 +153,9 @@ func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasFilterObject {
-		err = dec.Decode(&stn.filterObject)
+		if err = dec.Decode(&stn.filterObject); err != nil {
+			return
+		}
 	}
 
 	// matchNext
@@ -162,7 +164,9 @@ func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasMatchNext {
-		err = dec.Decode(&stn.matchNext)
+		if err = dec.Decode(&stn.matchNext); err != nil {
+			return
+		}
 	} else {
 		stn.matchNext = nil
 	}
@@ -173,7 +177,9 @@ func (stn *SplayTreeNode) UnmarshalBinary(data []byte) (err error) {
 		return
 	}
 	if hasMismatchNext {
-		err = dec.Decode(&stn.mismatchNext)
+		if err = dec.Decode(&stn.mismatchNext); err != nil {
+			return
+		}
 	} else {
 		stn.mismatchNext = nil
 	}
-- 
2.43.0


From 3ca04431b9b960374b6316a59b30f92b862c979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 14/40] fix: SplayTree must not move the nodes of a subset to
 the root

---
 filtering/splay_tree.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 48a9313..88d2700 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -76,7 +76,7 @@ func (st *SplayTree) Name() string {
 
 // Search returns a pureIdentity of the llrp.ReadEvent if found any subscription without err
 func (st *SplayTree) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
-	reportURIs = st.root.splaySearch(st, nil, re.ID)
+	reportURIs = st.root.splaySearch(&st.root, nil, re.ID)
 	if len(reportURIs) == 0 {
 		return pureIdentity, reportURIs, fmt.Errorf("no match found for %v", re.ID)
 	}
@@ -325,27 +325,27 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	}
 }
 
-func (stn *SplayTreeNode) splaySearch(st *SplayTree, parent *SplayTreeNode, id []byte) []string {
+func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
 		matches = append(matches, stn.reportURI)
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
-			matches = append(matches, stn.matchNext.splaySearch(st, nil, id)...)
+			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
 		}
 		// Do Splay
-		// 0. Check if this is the root node, do nothing if so
+		// 0. Check if this is the head of its level, do nothing if so
 		if parent != nil {
 			// 1. Remove this node by connecting parent to the next mismatchNext node
 			parent.mismatchNext = stn.mismatchNext
-			// 2. Insert self to root
-			stn.mismatchNext = st.root
-			st.root = stn
+			// 2. Insert self to the head of the level
+			stn.mismatchNext = *head
+			*head = stn
 		}
 		return matches
 	}
 	if stn.mismatchNext != nil {
-		return stn.mismatchNext.splaySearch(st, stn, id)
+		return stn.mismatchNext.splaySearch(head, stn, id)
 	}
 	return matches
 }
-- 
2.43.0


From 60c6536eed167aea024736c0499d8eb9897b3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:42 +0000
Subject: [PATCH 15/40] fix: SplayTree must not report the blank reportURI of
 an aggregation node

---
 filtering/splay_tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 88d2700..a51190a 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -328,7 +328,9 @@ func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 func (stn *SplayTreeNode) splaySearch(head **SplayTreeNode, parent *SplayTreeNode, id []byte) []string {
 	matches := []string{}
 	if stn.filterObject.Match(id) {
-		matches = append(matches, stn.reportURI)
+		if len(stn.reportURI) != 0 {
+			matches = append(matches, stn.reportURI)
+		}
 		if stn.matchNext != nil {
 			// Do Search & Splay in the subsets
 			matches = append(matches, stn.matchNext.splaySearch(&stn.matchNext, nil, id)...)
-- 
2.43.0


From 8f0531ac3c1cd8b79b0334906448164938c8fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 16/40] fix: SplayTreeNode.add must nest the existing filters
 when a prefix of them is added

---
 filtering/splay_tree.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index a51190a..2a0805e 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -206,6 +206,8 @@ func (stn *SplayTreeNode) add(fs string, reportURI string) {
 				stn.matchNext.add(fs[stn.filterObject.Size:], reportURI)
 			}
 		}
+	} else if strings.HasPrefix(stn.filterObject.String, fs) { // the current node is a subset of fs
+		stn.nest(fs, reportURI)
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext == nil { // there's no mismatchNext node
 			stn.mismatchNext = &SplayTreeNode{}
@@ -309,6 +311,32 @@ func (stn *SplayTreeNode) equal(want *SplayTreeNode) (ok bool, got *SplayTreeNod
 	return true, nil, nil
 }
 
+// nest turns the node into fs and makes the node and its mismatchNext nodes
+// which are the subsets of fs the matching branch
+func (stn *SplayTreeNode) nest(fs string, reportURI string) {
+	offset := stn.filterObject.Offset
+	subset := &SplayTreeNode{
+		reportURI:    stn.reportURI,
+		filterObject: NewFilter(stn.filterObject.String[len(fs):], offset+len(fs)),
+		matchNext:    stn.matchNext,
+	}
+	last, prev := subset, stn
+	for n := stn.mismatchNext; n != nil; n = n.mismatchNext {
+		if !strings.HasPrefix(n.filterObject.String, fs) {
+			prev = n
+			continue
+		}
+		n.filterObject = NewFilter(n.filterObject.String[len(fs):], offset+len(fs))
+		prev.mismatchNext = n.mismatchNext
+		last.mismatchNext = n
+		last = n
+	}
+	last.mismatchNext = nil
+	stn.filterObject = NewFilter(fs, offset)
+	stn.reportURI = reportURI
+	stn.matchNext = subset
+}
+
 func (stn *SplayTreeNode) print(writer io.Writer, indent int) {
 	var n string
 	if len(stn.reportURI) != 0 {
-- 
2.43.0


From e0781bd125cb535b04257961b5e363200b006b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 17/40] fix: SplayTreeNode.delete must clear a leaf root and
 respect the reportURI

---
 filtering/splay_tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 2a0805e..4c0164a 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -247,7 +247,9 @@ func (stn *SplayTreeNode) build(sub ByteSubscriptions) *SplayTreeNode {
 func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	if strings.HasPrefix(fs, stn.filterObject.String) { // fs \in stn.FilterObject.String
 		if fs == stn.filterObject.String { // this node is to delete
-			if stn.matchNext == nil && stn.mismatchNext == nil { // something wrong
+			if stn.reportURI != reportURI { // registered for another reportURI
+			} else if stn.matchNext == nil && stn.mismatchNext == nil { // leaf without a parent to unlink it
+				stn.reportURI = ""
 			} else if stn.matchNext != nil { // if there is subset, keep the node as an aggregation node
 				if stn.matchNext.mismatchNext != nil {
 					stn.reportURI = ""
@@ -265,6 +267,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 		} else { // it's a subset (matching branch) of the current node, and there's no matchNext node
 			if stn.matchNext != nil { // if there's a matchNext node
 				if fs[stn.filterObject.Size:] == stn.matchNext.filterObject.String &&
+					stn.matchNext.reportURI == reportURI &&
 					stn.matchNext.matchNext == nil && stn.matchNext.mismatchNext == nil { // the matchNext is to delete
 					stn.matchNext = nil
 				} else {
@@ -275,6 +278,7 @@ func (stn *SplayTreeNode) delete(fs string, reportURI string) {
 	} else { // doesn't match with the current node, traverse the mismatchNext node
 		if stn.mismatchNext != nil { // there's a mismatchNext node
 			if fs == stn.mismatchNext.filterObject.String &&
+				stn.mismatchNext.reportURI == reportURI &&
 				stn.mismatchNext.matchNext == nil && stn.mismatchNext.mismatchNext == nil {
 				stn.mismatchNext = nil
 			} else {
-- 
2.43.0


From e7c93ec622c658ce224c8237fd751de7e8b30fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 18/40] fix: a SplayTree without subscriptions must be usable

---
 filtering/splay_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filtering/splay_tree.go b/filtering/splay_tree.go
index 4c0164a..dedad66 100644
--- a/filtering/splay_tree.go
+++ b/filtering/splay_tree.go
@@ -395,7 +395,7 @@ func NewSplayTree(sub Subscriptions) Engine {
 	bsub.linkSubset()
 
 	// build SplayTree
-	st.root = &SplayTreeNode{}
+	st.root = &SplayTreeNode{filterObject: NewFilter("", 0)}
 	st.root = st.root.build(bsub)
 
 	// initialize the tdt.Core
-- 
2.43.0


From 7382356888aaaa86650cefa9deecd395da7d4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 19/40] fix: Translate must reject an empty ID

---
 tdt/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index f4e3877..cfe63dd 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -69,6 +69,10 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 		return "", errors.New("Invalid PC bits")
 	}
 
+	if len(id) == 0 {
+		return "", errors.New("Invalid ID")
+	}
+
 	// Check the NSI toggle
 	// 00000001 & pc[0]
 	switch 1 & pc[0] {
-- 
2.43.0


From d1075ff3268efa83ff18f81be4e3db92f99c48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 20/40] fix: Translate must report an unsupported EPC header

---
 tdt/core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index cfe63dd..13f050d 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -800,6 +800,8 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			z.SetBytes(iar)
 			urn += z.String()
 		}
+	default:
+		return "", fmt.Errorf("unknown EPC header: %v", id[0])
 	}
 	return urn, nil
 }
-- 
2.43.0


From 2f82dbefbccc1781416f708c7a75202a075f6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 21/40] fix: Translate must report an undefined partition value

---
 tdt/core.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tdt/core.go b/tdt/core.go
index 13f050d..50379a6 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -108,6 +108,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 {
+			return "", fmt.Errorf("invalid partition: %v", partition)
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -284,6 +287,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 {
+			return "", fmt.Errorf("invalid partition: %v", partition)
+		}
 		// COMPANY_PREFIX and Extension
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -455,6 +461,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 {
+			return "", fmt.Errorf("invalid partition: %v", partition)
+		}
 		// COMPANY_PREFIX and ITEM_REFERENCE
 		z := new(big.Int)
 		switch ptm[CPBits] {
@@ -633,6 +642,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 				break
 			}
 		}
+		if cpLength == 0 {
+			return "", fmt.Errorf("invalid partition: %v", partition)
+		}
 		// COMPANY_PREFIX and Individual Asset Reference
 		z := new(big.Int)
 		switch ptm[CPBits] {
-- 
2.43.0


From d63e4c715f3ea31e33007e7c341c6a0968df6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 22/40] fix: Translate must report a field value exceeding its
 digits

---
 tdt/core.go | 111 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 62 insertions(+), 49 deletions(-)

diff --git a/tdt/core.go b/tdt/core.go
index 50379a6..cc5ba8c 100644
--- a/tdt/core.go
+++ b/tdt/core.go
@@ -88,6 +88,16 @@ func (c *Core) Translate(pc []byte, id []byte) (string, error) {
 func (c *Core) buildEPC(id []byte) (string, error) {
 	urn := ""
 
+	// zeros returns the zeros to pad a field, n < 0 if the value has too many digits
+	overflow := false
+	zeros := func(n int) string {
+		if n < 0 {
+			overflow = true
+			return ""
+		}
+		return strings.Repeat("0", n)
+	}
+
 	// EPC Header
 	switch id[0] {
 	case 48: /* ------------- SGTIN-96 00110000 ------------- */
@@ -128,13 +138,13 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<6 | id[6]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 1) // 4 bits
 			remainder = id[6] & 3
 			ir[0] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 37:
 			cp := make([]byte, 5)
 			remainder := id[1] & 3
@@ -149,13 +159,13 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<3 | id[6]>>5
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 1) // 7 bits
 			remainder = id[6] & 31
 			ir[0] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 34:
 			cp := make([]byte, 5)
 			cp[0] = id[1] & 3
@@ -165,14 +175,14 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = id[5]
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 2) // 10 bits
 			ir[0] = id[6] >> 6
 			remainder := id[6] & 63
 			ir[1] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 30:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -185,7 +195,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<4 | id[5]>>4
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 2) // 14 bits
 			remainder = id[5] & 15
 			ir[0] = remainder<<2 | id[6]>>6
@@ -193,7 +203,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ir[1] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 27:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -206,7 +216,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<1 | id[5]>>7
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 3) // 17 bits
 			remainder = id[5] & 127
 			ir[0] = remainder >> 6
@@ -216,7 +226,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ir[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 24:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -227,7 +237,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<6 | id[4]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 3) // 20 bits
 			remainder = id[4] & 3
 			ir[0] = remainder<<2 | id[5]>>6
@@ -237,7 +247,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ir[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		case 20:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -248,7 +258,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<2 | id[4]>>6
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ir := make([]byte, 3) // 24 bits
 			remainder = id[4] & 63
 			ir[0] = remainder<<2 | id[5]>>6
@@ -258,7 +268,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ir[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(ir)
 			itemReference := z.String()
-			urn += strings.Repeat("0", ptm[IRDigits]-len(itemReference)) + itemReference + "."
+			urn += zeros(ptm[IRDigits]-len(itemReference)) + itemReference + "."
 		}
 		// SERIAL
 		ser := make([]byte, 5)
@@ -307,7 +317,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<6 | id[6]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 3) // 18 bits
 			remainder = id[6] & 3
 			ext[0] = remainder
@@ -315,7 +325,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[2] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 37:
 			cp := make([]byte, 5)
 			remainder := id[1] & 3
@@ -330,7 +340,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<3 | id[6]>>5
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 3) // 21 bits
 			remainder = id[6] & 31
 			ext[0] = remainder
@@ -338,7 +348,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[2] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 34:
 			cp := make([]byte, 5)
 			cp[0] = id[1] & 3
@@ -348,14 +358,14 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = id[5]
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 3) // 24 bits
 			ext[0] = id[6]
 			ext[1] = id[7]
 			ext[2] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 30:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -368,7 +378,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<4 | id[5]>>4
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 4) // 28 bits
 			remainder = id[5] & 15
 			ext[0] = remainder
@@ -377,7 +387,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[3] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 27:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -390,7 +400,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<1 | id[5]>>7
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 4) // 31 bits
 			remainder = id[5] & 127
 			ext[0] = remainder
@@ -399,7 +409,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[3] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 24:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -410,7 +420,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<6 | id[4]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 5) // 34 bits
 			remainder = id[4] & 3
 			ext[0] = remainder
@@ -420,7 +430,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[4] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		case 20:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -431,7 +441,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<2 | id[4]>>6
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			ext := make([]byte, 5) // 38 bits
 			remainder = id[4] & 63
 			ext[0] = remainder
@@ -441,7 +451,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			ext[4] = id[8]
 			z.SetBytes(ext)
 			extension := z.String()
-			urn += strings.Repeat("0", ptm[EDigits]-len(extension)) + extension
+			urn += zeros(ptm[EDigits]-len(extension)) + extension
 		}
 	case 51: /* ------------- GRAI-96  00110011------------- */
 		if len(id) != 12 {
@@ -481,14 +491,14 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<6 | id[6]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			/*
 				at := make([]byte, 1) // 4 bits = 0 digit
 				remainder = id[6] & 3
 				at[0] = remainder<<2 | id[7]>>6
 				z.SetBytes(at)
 				assetType := z.String()
-				urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+				urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 			*/
 		case 37:
 			cp := make([]byte, 5)
@@ -504,13 +514,13 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<3 | id[6]>>5
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 1) // 7 bits
 			remainder = id[6] & 31
 			at[0] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		case 34:
 			cp := make([]byte, 5)
 			cp[0] = id[1] & 3
@@ -520,14 +530,14 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = id[5]
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 2) // 10 bits
 			at[0] = id[6] >> 6
 			remainder := id[6] & 63
 			at[1] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		case 30:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -540,7 +550,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<4 | id[5]>>4
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 2) // 14 bits
 			remainder = id[5] & 15
 			at[0] = remainder<<2 | id[6]>>6
@@ -548,7 +558,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			at[1] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		case 27:
 			cp := make([]byte, 4)
 			remainder := id[1] & 3
@@ -561,7 +571,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<1 | id[5]>>7
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 3) // 17 bits
 			remainder = id[5] & 127
 			at[0] = remainder >> 6
@@ -571,7 +581,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			at[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		case 24:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -582,7 +592,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<6 | id[4]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 3) // 20 bits
 			remainder = id[4] & 3
 			at[0] = remainder<<2 | id[5]>>6
@@ -592,7 +602,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			at[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		case 20:
 			cp := make([]byte, 3)
 			remainder := id[1] & 3
@@ -603,7 +613,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<2 | id[4]>>6
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			at := make([]byte, 3) // 24 bits
 			remainder = id[4] & 63
 			at[0] = remainder<<2 | id[5]>>6
@@ -613,7 +623,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			at[2] = remainder<<2 | id[7]>>6
 			z.SetBytes(at)
 			assetType := z.String()
-			urn += strings.Repeat("0", ptm[ATDigits]-len(assetType)) + assetType + "."
+			urn += zeros(ptm[ATDigits]-len(assetType)) + assetType + "."
 		}
 		// SERIAL
 		ser := make([]byte, 5)
@@ -662,7 +672,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<6 | id[6]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 6) // 42 bits
 			remainder = id[6] & 3
 			iar[0] = remainder
@@ -687,7 +697,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = remainder<<3 | id[6]>>5
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 6) // 45 bits
 			remainder = id[6] & 31
 			iar[0] = remainder
@@ -707,7 +717,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[4] = id[5]
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 6) // 48 bits
 			iar[0] = id[6]
 			iar[1] = id[7]
@@ -729,7 +739,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<4 | id[5]>>4
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 7) // 52 bits
 			remainder = id[5] & 15
 			iar[0] = remainder
@@ -753,7 +763,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[3] = remainder<<1 | id[5]>>7
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 7) // 55 bits
 			remainder = id[5] & 127
 			iar[0] = remainder
@@ -775,7 +785,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<6 | id[4]>>2
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 8) // 58 bits
 			remainder = id[4] & 3
 			iar[0] = remainder
@@ -798,7 +808,7 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 			cp[2] = remainder<<2 | id[4]>>6
 			z.SetBytes(cp)
 			companyPrefix := z.String()
-			urn += strings.Repeat("0", cpLength-len(companyPrefix)) + companyPrefix + "."
+			urn += zeros(cpLength-len(companyPrefix)) + companyPrefix + "."
 			iar := make([]byte, 8) // 62 bits
 			remainder = id[4] & 63
 			iar[0] = remainder
@@ -815,6 +825,9 @@ func (c *Core) buildEPC(id []byte) (string, error) {
 	default:
 		return "", fmt.Errorf("unknown EPC header: %v", id[0])
 	}
+	if overflow {
+		return "", errors.New("field value out of range")
+	}
 	return urn, nil
 }
 
-- 
2.43.0


From 2abfbe7500cbe2550297e5208455918c6fc336ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 23/40] fix: compute the ISO6346 check digit over owner code,
 equipment identifier and serial number

---
 tdt/iso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdt/iso.go b/tdt/iso.go
index 496bb84..8fdd5bb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -79,7 +79,7 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 	} else if 6 < len(csn) {
 		return "", fmt.Errorf("Invalid csn: %v", csn)
 	}
-	cd, err := getISO6346CD(fields[0] + fields[1] + csn)
+	cd, err := getISO6346CD(fields[1] + fields[2] + csn)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From eeb06f60b201f1a3e9c1dea882149eb0fc1587f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 24/40] fix: reject patterns with blank, non-numeric or
 unsupported fields

---
 tdt/epc.go | 36 ++++++++++++++++++++++++++++++++++++
 tdt/iso.go | 12 ++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/tdt/epc.go b/tdt/epc.go
index 7bc64d3..b4504ce 100644
--- a/tdt/epc.go
+++ b/tdt/epc.go
@@ -78,6 +78,26 @@ var SSCC96PartitionTable = PartitionTable{
 	6:  {PValue: 6, CPBits: 20, EBits: 38, EDigits: 11},
 }
 
+// checkFields returns an error if the fields are not decimal numbers,
+// the filter value exceeds 3 bits, or the partition for companyPrefix is undefined
+func checkFields(fields []string, pt PartitionTable) error {
+	for i, field := range fields {
+		bitSize := 63
+		if i == 0 { // filter
+			bitSize = 3
+		}
+		if _, err := strconv.ParseUint(field, 10, bitSize); err != nil {
+			return fmt.Errorf("invalid fields %q: %v", fields, err)
+		}
+	}
+	if len(fields) > 1 {
+		if _, ok := pt[len(fields[1])]; !ok {
+			return fmt.Errorf("invalid companyPrefix: %q", fields[1])
+		}
+	}
+	return nil
+}
+
 // getAssetType returns Asset Type as rune slice
 func getAssetType(at string, pr map[PartitionTableKey]int) (assetType []rune) {
 	if at != "" {
@@ -179,6 +199,10 @@ func NewPrefixFilterGIAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GIAI96PartitionTable); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -208,6 +232,10 @@ func NewPrefixFilterGRAI96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, GRAI96PartitionTable); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -243,6 +271,10 @@ func NewPrefixFilterSGTIN96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SGTIN96PartitionTable); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
@@ -278,6 +310,10 @@ func NewPrefixFilterSSCC96(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	if err := checkFields(fields, SSCC96PartitionTable); err != nil {
+		return "", err
+	}
+
 	// filter
 	filter := getFilter(fields[0])
 	if nFields == 1 {
diff --git a/tdt/iso.go b/tdt/iso.go
index 8fdd5bb..a400cdb 100644
--- a/tdt/iso.go
+++ b/tdt/iso.go
@@ -53,6 +53,12 @@ func NewPrefixFilterISO17363(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	for _, field := range fields {
+		if field == "" {
+			return "", fmt.Errorf("blank field: %q", fields)
+		}
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
@@ -99,6 +105,12 @@ func NewPrefixFilterISO17365(fields []string) (string, error) {
 		return "", fmt.Errorf("wrong fields: %q", fields)
 	}
 
+	for _, field := range fields {
+		if field == "" {
+			return "", fmt.Errorf("blank field: %q", fields)
+		}
+	}
+
 	// dataIdentifier
 	dataIdentifier := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[0]))
 	if nFields == 1 {
-- 
2.43.0


From 7ee35e04c18a8ad46bed9f4e2abd16c341c6420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 25/40] fix: reject company prefixes without a partition when
 generating EPCs

---
 scheme/epc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index ec0b336..d4e40be 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -183,6 +183,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if _, ok := GIAI96PartitionTable[len(cp)]; !ok {
+		return []byte{}, "", "", fmt.Errorf("invalid companyPrefix: %q", cp)
+	}
 	companyPrefix := GetCompanyPrefix(cp, GIAI96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", GIAI96PartitionTable[len(cp)][PValue]))
 
@@ -241,6 +244,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if _, ok := GRAI96PartitionTable[len(cp)]; !ok {
+		return []byte{}, "", "", fmt.Errorf("invalid companyPrefix: %q", cp)
+	}
 	companyPrefix := GetCompanyPrefix(cp, GRAI96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", GRAI96PartitionTable[len(cp)][PValue]))
 
@@ -307,6 +313,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if _, ok := SGTIN96PartitionTable[len(cp)]; !ok {
+		return []byte{}, "", "", fmt.Errorf("invalid companyPrefix: %q", cp)
+	}
 	companyPrefix := GetCompanyPrefix(cp, SGTIN96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", SGTIN96PartitionTable[len(cp)][PValue]))
 
@@ -373,6 +382,9 @@ func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, stri
 		}
 		return []byte{}, "", "", errors.New("companyPrefix is empty")
 	}
+	if _, ok := SSCC96PartitionTable[len(cp)]; !ok {
+		return []byte{}, "", "", fmt.Errorf("invalid companyPrefix: %q", cp)
+	}
 	companyPrefix := GetCompanyPrefix(cp, SSCC96PartitionTable)
 	partition := []rune(fmt.Sprintf("%.3b", SSCC96PartitionTable[len(cp)][PValue]))
 
-- 
2.43.0


From c8523720320e280ee1906c5548cc5de2f551027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 26/40] fix: the generated pattern must name the filter value
 of the generated prefix

---
 scheme/epc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheme/epc.go b/scheme/epc.go
index d4e40be..0c4663b 100644
--- a/scheme/epc.go
+++ b/scheme/epc.go
@@ -236,6 +236,9 @@ func MakeGIAI96(pf bool, fv string, cp string, iar string) ([]byte, string, stri
 // MakeGRAI96 generates GRAI-96
 func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 
 	//CP
 	if cp == "" {
@@ -306,6 +309,9 @@ func MakeGRAI96(pf bool, fv string, cp string, at string, ser string) ([]byte, s
 // MakeSGTIN96 generates SGTIN-96
 func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
@@ -375,6 +381,9 @@ func MakeSGTIN96(pf bool, fv string, cp string, ir string, ser string) ([]byte,
 // MakeSSCC96 generates SSCC-96
 func MakeSSCC96(pf bool, fv string, cp string, ext string) ([]byte, string, string, error) {
 	filter := GetFilter(fv)
+	if fv == "" {
+		fv = strconv.Itoa(binutil.ParseBinRuneSliceToInt(filter))
+	}
 	// CP
 	if cp == "" {
 		if pf {
-- 
2.43.0


From 14886fdfa014261985c72cc3f82cb6a03d754309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 27/40] fix: write each statistics point once instead of
 resending all the earlier ones

---
 monitoring/stat_manager.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index acfbe27..d4d2e15 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -31,15 +31,6 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 	}
 	defer c.Close()
 
-	// create a new point batch
-	bp, err := client.NewBatchPoints(client.BatchPointsConfig{
-		Database:  db,
-		Precision: "ns",
-	})
-	if err != nil {
-		log.Fatal(err)
-	}
-
 	// make the stat message channel
 	smc := make(chan StatMessage)
 
@@ -95,6 +86,15 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			if err != nil {
 				log.Fatal(err)
 			}
+
+			// create a new point batch
+			bp, err := client.NewBatchPoints(client.BatchPointsConfig{
+				Database:  db,
+				Precision: "ns",
+			})
+			if err != nil {
+				log.Fatal(err)
+			}
 			bp.AddPoint(pt)
 
 			// write the batch
-- 
2.43.0


From d4beeb459f776337e251d61dcdc4186accbd46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 28/40] fix: skip malformed statistics messages

---
 monitoring/stat_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index d4d2e15..f47c9c1 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -48,6 +48,9 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			// create a point
 			switch msg.Type {
 			case Traffic:
+				if len(msg.Value) < 2 {
+					continue
+				}
 				ingress, ok := msg.Value[0].(int64)
 				if !ok {
 					continue
@@ -64,6 +67,9 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 				tags["engine"] = msg.Name
 				measurement = "traffic"
 			case EngineThroughput:
+				if len(msg.Value) < 1 {
+					continue
+				}
 				fields["event_per_us"] = msg.Value[0]
 				tags["engine"] = msg.Name
 				measurement = "throughput"
@@ -81,6 +87,8 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 				}
 				fields["selected"] = engineType
 				measurement = "engine"
+			default:
+				continue
 			}
 			pt, err := client.NewPoint(measurement, tags, fields, time.Now())
 			if err != nil {
-- 
2.43.0


From ccca9bd0f519408fb3635123ac35f4da96d6f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 29/40] fix: use the name of the legacy engine in the
 monitoring code table

---
 monitoring/stat_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index f47c9c1..df465f1 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -76,7 +76,7 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			case SelectedEngine:
 				engineType := 0
 				switch msg.Name {
-				case "Legacy":
+				case "LegacyEngine":
 					engineType = 0
 				case "List":
 					engineType = 1
-- 
2.43.0


From 9eee8ccfdd859f20bf866e668f6b0f38b8299de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 30/40] fix: guard the name of the current engine shared by the
 search path, the listener and the ticker

---
 filtering/engine_factory.go | 46 +++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 0bf2319..c122693 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -25,12 +25,27 @@ type EngineFactory struct {
 	deploymentPriority   map[string]uint8
 	enginePerformance    sync.Map
 	currentEngineName    string
+	currentEngineMutex   sync.RWMutex // guards currentEngineName
 	statInterval         int
 }
 
+// currentEngine returns the name of the current engine
+func (ef *EngineFactory) currentEngine() string {
+	ef.currentEngineMutex.RLock()
+	defer ef.currentEngineMutex.RUnlock()
+	return ef.currentEngineName
+}
+
+// setCurrentEngine sets the name of the current engine
+func (ef *EngineFactory) setCurrentEngine(name string) {
+	ef.currentEngineMutex.Lock()
+	defer ef.currentEngineMutex.Unlock()
+	ef.currentEngineName = name
+}
+
 // IsActive returns false if no engine is available
 func (ef *EngineFactory) IsActive() bool {
-	if len(ef.currentEngineName) == 0 {
+	if len(ef.currentEngine()) == 0 {
 		return false
 	}
 	return true
@@ -38,12 +53,13 @@ func (ef *EngineFactory) IsActive() bool {
 
 // Search is a wrapper for Search() with the current EngineGenerator
 func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
+	current := ef.currentEngine()
 	for name, eg := range ef.productionSystem {
-		if name != ef.currentEngineName && eg.FSM.Is("ready") {
+		if name != current && eg.FSM.Is("ready") {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[ef.currentEngineName].Search(re)
+	return ef.productionSystem[current].Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
@@ -104,13 +120,13 @@ func (ef *EngineFactory) Run() {
 					}
 					return true
 				})
-				if ef.currentEngineName != ename && len(ename) != 0 {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngineName)
-					ef.currentEngineName = ename
+				if ef.currentEngine() != ename && len(ename) != 0 {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s due to performance", ename, ef.currentEngine())
+					ef.setCurrentEngine(ename)
 				}
 				ef.mainChannel <- ManagementMessage{
 					Type:       SelectedEngine,
-					EngineName: ef.currentEngineName,
+					EngineName: ef.currentEngine(),
 				}
 			}
 		}
@@ -165,25 +181,25 @@ func (ef *EngineFactory) Run() {
 				*/
 			case OnEngineGenerated:
 				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
-				if len(ef.currentEngineName) == 0 {
+				if len(ef.currentEngine()) == 0 {
 					log.Printf("[EngineFactory] set %s as an initial engine", msg.EngineGeneratorInstance.Name)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+					ef.setCurrentEngine(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.currentEngine(),
 					}
 					continue
 				}
-				if ef.deploymentPriority[ef.currentEngineName] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
-					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
-					ef.currentEngineName = msg.EngineGeneratorInstance.Name
+				if ef.deploymentPriority[ef.currentEngine()] < ef.deploymentPriority[msg.EngineGeneratorInstance.Name] {
+					log.Printf("[EngineFactory] %s replaces the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngine())
+					ef.setCurrentEngine(msg.EngineGeneratorInstance.Name)
 					ef.mainChannel <- ManagementMessage{
 						Type:       SelectedEngine,
-						EngineName: ef.currentEngineName,
+						EngineName: ef.currentEngine(),
 					}
 					continue
 				}
-				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngineName)
+				log.Printf("[EngineFactory] %s didn't replace the currentEngine %s", msg.EngineGeneratorInstance.Name, ef.currentEngine())
 			case TrafficStatus:
 				ef.mainChannel <- msg // bypass the status message from generators to main
 			case EngineStatus:
-- 
2.43.0


From c3cd6718835d7f197e3bfe3570e5b0cc4261311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 31/40] fix: EngineFactory.Search must report an error while no
 engine is available

---
 filtering/engine_factory.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index c122693..6c42fd8 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -7,6 +7,7 @@ package filtering
 
 import (
 	"context"
+	"errors"
 	"log"
 	"reflect"
 	"sync"
@@ -59,7 +60,11 @@ func (ef *EngineFactory) Search(re llrp.ReadEvent) (string, []string, error) {
 			_, _, _ = eg.Search(re)
 		}
 	}
-	return ef.productionSystem[current].Search(re)
+	eg, ok := ef.productionSystem[current]
+	if !ok {
+		return "", nil, errors.New("no engine is available")
+	}
+	return eg.Search(re)
 }
 
 // NewEngineFactory returns the pointer to a new EngineFactory instance
-- 
2.43.0


From 30d8c95c30bf9fd218d3b94c41068291f688150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 32/40] fix: EngineFactory must not consume the status messages
 it sends to main

---
 filtering/engine_factory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_factory.go b/filtering/engine_factory.go
index 6c42fd8..236d126 100644
--- a/filtering/engine_factory.go
+++ b/filtering/engine_factory.go
@@ -105,9 +105,9 @@ func NewEngineFactory(sub Subscriptions, statInterval int, mc chan ManagementMes
 // Run starts the engine factory to react with the ManagementChannel
 func (ef *EngineFactory) Run() {
 	log.Println("[EngineFactory] start running")
-	// set channels from EngineGenerators + main
-	cases := make([]reflect.SelectCase, len(ef.generatorChannels)+1)
-	for i, ch := range append(ef.generatorChannels, ef.mainChannel) {
+	// set channels from EngineGenerators
+	cases := make([]reflect.SelectCase, len(ef.generatorChannels))
+	for i, ch := range ef.generatorChannels {
 		cases[i] = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
 	}
 	go func() {
-- 
2.43.0


From 1493e31f70b71d0ef10a41f001f7e46a487ff363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 33/40] fix: count matched events atomically and lose none
 between reports

---
 filtering/engine_generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filtering/engine_generator.go b/filtering/engine_generator.go
index 77f0d4b..d9a3ca1 100644
--- a/filtering/engine_generator.go
+++ b/filtering/engine_generator.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"log"
 	"math"
+	"sync/atomic"
 	"time"
 
 	//"reflect"
@@ -83,7 +84,7 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					Type:         TrafficStatus,
 					EngineName:   eg.Name,
 					EventCount:   eg.EventCount,
-					MatchedCount: eg.MatchedCount,
+					MatchedCount: atomic.SwapInt64(&eg.MatchedCount, 0),
 				}
 				throughput := float64(eg.EventCount) / float64(eg.totalTime)
 				if throughput != 0 && !math.IsNaN(throughput) {
@@ -95,7 +96,6 @@ func NewEngineGenerator(name string, ec EngineConstructor, statInterval int, mc
 					}
 				}
 				eg.EventCount = 0
-				eg.MatchedCount = 0
 				eg.totalTime = 0
 			}
 		}
@@ -109,7 +109,7 @@ func (eg *EngineGenerator) Search(re llrp.ReadEvent) (string, []string, error) {
 	defer timeTrack(time.Now(), eg.timePerEventChannel)
 	pureIdentity, reportURIs, err := eg.Engine.Search(re)
 	if len(reportURIs) != 0 {
-		eg.MatchedCount++
+		atomic.AddInt64(&eg.MatchedCount, 1)
 	}
 	return pureIdentity, reportURIs, err
 }
-- 
2.43.0


From 6e888ba8f611a3a70b2aeb6b1bd3dfcc569460da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 34/40] fix: reject LLRP messages shorter than their header

---
 cmd/gosstrak-fc/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index ff9734e..f4e614d 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -274,6 +274,9 @@ func run() {
 		// length containts the size of the entire message in octets
 		// starting from bit offset 0, hence, the message size is
 		// length - 10 bytes
+		if binary.BigEndian.Uint32(length) < 10 {
+			log.Fatalf("invalid LLRP message length: %v", binary.BigEndian.Uint32(length))
+		}
 		var messageValue []byte
 		if messageSize := binary.BigEndian.Uint32(length) - 10; messageSize != 0 {
 			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)
-- 
2.43.0


From c3b9cca39e56f4fc009ee0cb49138ecdb965c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 35/40] fix: honour the initialMessageID flag

---
 cmd/gosstrak-fc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index f4e614d..f61cbc2 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -103,7 +103,7 @@ var (
 	cmdStart = app.Command("start", "Start the gosstrak-fc.")
 
 	// Current messageID
-	currentMessageID = uint32(*llrpInitialMessageID)
+	currentMessageID uint32
 )
 
 func getPackagePath() string {
@@ -309,6 +309,7 @@ func run() {
 func main() {
 	app.Version(version)
 	parse := kingpin.MustParse(app.Parse(os.Args[1:]))
+	currentMessageID = uint32(*llrpInitialMessageID)
 
 	// Create cache directory if not exists
 	// TODO: set OS specific dataCacheDir
-- 
2.43.0


From 8def73662b29b06e84b360c481cb0b7ecca02944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 36/40] fix: close accepted connections which cannot be served

---
 cmd/ale-ec/main.go      | 1 +
 cmd/gosstrak-fc/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/ale-ec/main.go b/cmd/ale-ec/main.go
index 4a2c505..dfc0ca9 100644
--- a/cmd/ale-ec/main.go
+++ b/cmd/ale-ec/main.go
@@ -47,6 +47,7 @@ func main() {
 		spdyConn, err := spdystream.NewConnection(c, true)
 		if err != nil {
 			log.Print(err)
+			c.Close()
 			continue
 		}
 		go spdyConn.Serve(spdystream.MirrorStreamHandler)
diff --git a/cmd/gosstrak-fc/main.go b/cmd/gosstrak-fc/main.go
index f61cbc2..87e34a4 100644
--- a/cmd/gosstrak-fc/main.go
+++ b/cmd/gosstrak-fc/main.go
@@ -192,6 +192,7 @@ func run() {
 			spdyConn, err := spdystream.NewConnection(c, true)
 			if err != nil {
 				log.Print(err)
+				c.Close()
 				continue
 			}
 			go spdyConn.Serve(spdystream.MirrorStreamHandler)
-- 
2.43.0


From 6a64fa91ee2e3358938e5421c773f67515ba3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 37/40] fix: makeByteID must report an invalid ID

---
 cmd/gobtags/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gobtags/main.go b/cmd/gobtags/main.go
index 1fb7478..48be0c0 100644
--- a/cmd/gobtags/main.go
+++ b/cmd/gobtags/main.go
@@ -25,7 +25,7 @@ var (
 func makeByteID(s string) ([]byte, error) {
 	id, err := binutil.ParseBinRuneSliceToUint8Slice([]rune(s))
 	if err != nil {
-		return []byte{}, nil
+		return []byte{}, err
 	}
 	return binutil.Pack([]interface{}{id}), err
 }
-- 
2.43.0


From ef2d3376be2270dfcc87689220131b66922ce6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 38/40] fix: report legacy matches in a fixed order instead of
 map order

---
 filtering/legacy_engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filtering/legacy_engine.go b/filtering/legacy_engine.go
index 27adf20..ea50953 100644
--- a/filtering/legacy_engine.go
+++ b/filtering/legacy_engine.go
@@ -93,8 +93,8 @@ func (le *LegacyEngine) Search(re llrp.ReadEvent) (pureIdentity string, reportUR
 		return
 	}
 
-	for reportURI, patterns := range le.filters {
-		for _, pattern := range patterns {
+	for _, reportURI := range le.filters.Keys() {
+		for _, pattern := range le.filters[reportURI] {
 			seq := strings.Split(pattern, ":")
 			if len(seq) != 5 {
 				continue
-- 
2.43.0


From 5ace46b2d7fe65bb444bd1f7f48c8ca879673569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 39/40] fix: skip a statistics message which makes no valid
 point instead of exiting

---
 monitoring/stat_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monitoring/stat_manager.go b/monitoring/stat_manager.go
index df465f1..421475b 100644
--- a/monitoring/stat_manager.go
+++ b/monitoring/stat_manager.go
@@ -92,7 +92,9 @@ func NewStatManager(mode string, addr string, user string, pass string, db strin
 			}
 			pt, err := client.NewPoint(measurement, tags, fields, time.Now())
 			if err != nil {
-				log.Fatal(err)
+				// e.g. the infinite throughput of searches faster than 1us
+				log.Print(err)
+				continue
 			}
 
 			// create a new point batch
-- 
2.43.0


From 913e943e3193092621aeec425e23eb321ff17283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:09 +0000
Subject: [PATCH 40/40] fix: sixenc2bin must not crash without an argument

---
 scheme/sixenc2bin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/sixenc2bin/main.go b/scheme/sixenc2bin/main.go
index 09368b8..085641f 100644
--- a/scheme/sixenc2bin/main.go
+++ b/scheme/sixenc2bin/main.go
@@ -17,8 +17,9 @@ func sixenc2bin(sixenc []rune) []rune {
 }
 
 func main() {
-	if len(os.Args) < 1 {
+	if len(os.Args) < 2 {
 		fmt.Println("Must pass a string input")
+		os.Exit(1)
 	}
 	fmt.Printf(string(sixenc2bin([]rune(os.Args[1]))))
 }
-- 
2.43.0

