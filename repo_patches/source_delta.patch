From 12b5e9b38fe6be95b56326a0b88c5166900a10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 01/36] fix: a path of zero distance is not an unvisited
 location

---
 segmenter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..5b1008f 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,14 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil {
+		// never visited: a zero distance is also a valid path value
+		jumper.minDistance = newDistance
+		jumper.token = token
+		return
+	}
+
+	if jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From 9ff45348a9c02d32bece9c23dd2fc84294c4a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 02/36] fix: search mode drops a text that is one single word

---
 segmenter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segmenter.go b/segmenter.go
index 5b1008f..6eb4e1c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -98,7 +98,9 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	// the text itself is segmented the same way in both modes; leaving out the
+	// token that covers all the words is for the sub-segments only (CalcToken)
+	return seg.segmentWords(text, false)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From 6304ab000a19124a376f55196655cf212459e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 03/36] fix: a beginning of a word gives the whole sentence an
 infinite weight

---
 dag.go             | 4 ++++
 hmm/pos/pos_seg.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dag.go b/dag.go
index dd15cb9..81febe4 100644
--- a/dag.go
+++ b/dag.go
@@ -177,6 +177,10 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
+			if freq <= 0 {
+				// only the beginning of longer words, not a word itself
+				ok = false
+			}
 
 			if ok {
 				f := math.Log(freq) - logT + rs[i+1].freq
diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..2990d42 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -160,7 +160,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
-			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok {
+			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok && freq > 0.0 {
 				r = route{
 					freq:  math.Log(freq) - seg.dict.logTotal + rs[i+1].freq,
 					index: i}
-- 
2.43.0


From cbd945dd0f2db89f5935e413498df974ee8e3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 04/36] fix: RemoveToken of the beginning of words removes the
 words

---
 dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..d27e711 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -73,6 +73,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	// the trie would drop every word that begins with this text
+	if _, err := dict.trie.Get(bytes); err != nil {
+		return err
+	}
 
 	return dict.trie.Delete(bytes)
 }
-- 
2.43.0


From 8419affa4fe1ac58471e3510ef9f2031d94bf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 05/36] fix: LoadDict panics after Empty

---
 dict_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..f6ef026 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -106,6 +106,7 @@ func (seg *Segmenter) RemoveToken(text string) error {
 // Empty empty the seg dictionary
 func (seg *Segmenter) Empty() error {
 	seg.Dict = nil
+	seg.Load = false
 	return nil
 }
 
-- 
2.43.0


From d60c214346ccff6a7aa2dcdf0a6a0eece14cf9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 06/36] fix: LoadDict discards the words of LoadDictStr and
 LoadDictMap

---
 dict_1.16.go | 1 +
 dict_util.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict_1.16.go b/dict_1.16.go
index e90fceb..2438917 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -91,6 +91,7 @@ func (seg *Segmenter) LoadDictEmbed(dict ...string) (err error) {
 func (seg *Segmenter) LoadDictStr(dict string) error {
 	if seg.Dict == nil {
 		seg.Dict = NewDict()
+		seg.Load = true
 		seg.Init()
 	}
 
diff --git a/dict_util.go b/dict_util.go
index f6ef026..722ca3b 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -114,6 +114,7 @@ func (seg *Segmenter) Empty() error {
 func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 	if seg.Dict == nil {
 		seg.Dict = NewDict()
+		seg.Load = true
 		seg.Init()
 	}
 
-- 
2.43.0


From b50da54a562a0b29b0d1ecadfd9220eeafb33e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 07/36] fix: AddStop panics without a loaded stop word
 dictionary

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 207fe1b40354f1c5c9e519864a3d748faa6d1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 08/36] fix: TrimWithPos without a pos drops everything

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index 2990d42..60112f7 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..ac905fe 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From 5c46cbb2fe70fc2758970e5ed7613da671b17319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 09/36] fix: TrimPosPunct writes in the slice of its caller

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index ac905fe..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From 283f0b4e26809090574bfe2f68a114fa440a767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 10/36] fix: DictPaths repeats the previous path for a language
 without a file

---
 dict_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dict_util.go b/dict_util.go
index 722ca3b..e91b998 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -400,6 +400,7 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		dictPath = ""
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0


From 874e47661a1fba426f715a74800c72b13590f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 11/36] fix: a zero byte in a text or in a word runs into the
 value nodes of the trie

---
 dictionary.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index d27e711..13bd222 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,6 +14,8 @@
 package gse
 
 import (
+	"bytes"
+
 	"github.com/vcaesar/cedar"
 )
 
@@ -50,6 +52,10 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if !validKey(bytes) {
+		return cedar.ErrInvalidKey
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
@@ -77,6 +83,9 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 	if _, err := dict.trie.Get(bytes); err != nil {
 		return err
 	}
+	if !validKey(bytes) {
+		return cedar.ErrNoKey
+	}
 
 	return dict.trie.Delete(bytes)
 }
@@ -91,6 +100,10 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
+		if !validKey(word) {
+			break
+		}
+
 		id, err = dict.trie.Jump(word, id)
 		if err != nil {
 			break
@@ -115,6 +128,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
+	if !validKey(word) {
+		return 0, "", false
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, "", false
@@ -137,6 +154,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if !validKey(word) {
+		return 0, id, cedar.ErrNoKey
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
@@ -145,3 +166,9 @@ func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
 	val, err = dict.trie.Value(id)
 	return
 }
+
+// validKey reports whether the trie can hold the key: a zero byte is the
+// label of its value nodes, and an empty key is not a word
+func validKey(key []byte) bool {
+	return len(key) > 0 && bytes.IndexByte(key, 0) < 0
+}
-- 
2.43.0


From 2db9aa6fdf586ea6669738e1295119711f598f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 12/36] fix: a removed word still counts in the total frequency

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 13bd222..e14ec39 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -80,13 +80,16 @@ func (dict *Dictionary) AddToken(token Token) error {
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
 	// the trie would drop every word that begins with this text
-	if _, err := dict.trie.Get(bytes); err != nil {
+	val, err := dict.trie.Get(bytes)
+	if err != nil {
 		return err
 	}
 	if !validKey(bytes) {
 		return cedar.ErrNoKey
 	}
 
+	// a removed word no longer counts in the total
+	dict.totalFreq -= dict.Tokens[val].freq
 	return dict.trie.Delete(bytes)
 }
 
-- 
2.43.0


From bd7e9a1d2471cdc5522656d279fa1916145b2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 13/36] fix: a dictionary source that fails is read for ever

---
 dict_util.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index e91b998..a304eb4 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -352,6 +352,17 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 				if seg.DictSep != "" && text == "" {
 					break
 				}
+			} else if seg.DictSep != "" {
+				// the source fails: reading again would never end
+				return fsErr
+			}
+
+			if seg.DictSep == "" {
+				// a bad line is skipped, a failing source is not
+				_, err := reader.Peek(1)
+				if err != nil && err != io.EOF {
+					return err
+				}
 			}
 
 			if size > 0 {
-- 
2.43.0


From 8191a847fedc8a813b616c3543524c1a6407b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 14/36] fix: a line of a word alone takes the part of speech of
 the line before

---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index a304eb4..218c232 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -381,7 +381,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			continue
 		}
 
-		if size == 2 {
+		if size <= 2 {
 			// No part of speech, marked as an empty string
 			pos = ""
 		}
-- 
2.43.0


From 8ba732bbf0bd06195256ecf4facce9425c1ee464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 15/36] fix: a line of a word alone keeps its line break with a
 separator

---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 218c232..177a0fe 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -304,7 +304,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	text = strings.TrimSpace(parts[0])
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
-- 
2.43.0


From fe836795322940414a2b601d60a76dfbca7f3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 16/36] fix: the first word of the dictionary has no part of
 speech

---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From 817a3d81a3bfa28d21668afacc8d4fb139b0123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 17/36] fix: FindAllOccs never ends on an empty word

---
 dag.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dag.go b/dag.go
index 81febe4..74c65b8 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,11 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			// found everywhere, the search below would never end
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 8aa15ffbb7de5038d4e7d76e794f2694076aa47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 18/36] fix: the ranks of TextRank depend on the order of a map

---
 hmm/idf/textrank.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..d4601f1 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
@@ -168,8 +169,20 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	// in a fixed order: the ranks are sums of floats
+	starts := make([][2]string, 0, len(cm))
+	for startEnd := range cm {
+		starts = append(starts, startEnd)
+	}
+	sort.Slice(starts, func(i, j int) bool {
+		if starts[i][0] == starts[j][0] {
+			return starts[i][1] < starts[j][1]
+		}
+		return starts[i][0] < starts[j][0]
+	})
+
+	for _, startEnd := range starts {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From 1f05b70a0dc85fa80baf936de52221b15780234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 19/36] fix: HMM cut with a regexp that matches the empty text
 never ends

---
 hmm/hmm_seg.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..5b533e2 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -89,6 +89,10 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		} else {
 			cutLoc = regHan.FindStringIndex(text)
 		}
+		if cutLoc != nil && cutLoc[0] == cutLoc[1] {
+			// an empty match cuts nothing
+			cutLoc = nil
+		}
 
 		if cutLoc == nil {
 			if len(text) == 0 {
@@ -106,6 +110,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		} else {
 			nonCutLoc = regSkip.FindStringIndex(text)
 		}
+		if nonCutLoc != nil && nonCutLoc[0] == nonCutLoc[1] {
+			nonCutLoc = nil
+		}
 		if nonCutLoc == nil {
 			if len(text) == 0 {
 				break
-- 
2.43.0


From ed06946f22f5210e409cdd22437a49aae477232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 20/36] fix: loading a dictionary while another segmenter cuts
 crashes in the HMM model

---
 hmm/hmm_seg.go | 13 ++++++++++++-
 hmm/viterbi.go |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 5b533e2..08f3490 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -19,8 +19,13 @@ package hmm
 
 import (
 	"regexp"
+	"sync"
 )
 
+// modelMu guards probEmit: the model is shared by all the segmenters, loading
+// a dictionary loads it again
+var modelMu sync.RWMutex
+
 var (
 	regHan  = regexp.MustCompile(`\p{Han}+`)
 	regSkip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
@@ -32,6 +37,9 @@ var (
 
 // LoadModel load the HMM model
 func LoadModel(prob ...map[rune]float64) {
+	modelMu.Lock()
+	defer modelMu.Unlock()
+
 	if len(prob) > 3 {
 		probEmit['B'] = prob[0]
 		probEmit['E'] = prob[1]
@@ -48,7 +56,7 @@ func internalCut(text string) []string {
 	result := make([]string, 0, 10)
 
 	runes := []rune(text)
-	_, posList := Viterbi(runes, []byte{'B', 'M', 'E', 'S'})
+	_, posList := viterbi(runes, []byte{'B', 'M', 'E', 'S'})
 	begin, next := 0, 0
 
 	for i, char := range runes {
@@ -74,6 +82,9 @@ func internalCut(text string) []string {
 
 // Cut cuts text to words using HMM with Viterbi algorithm
 func Cut(text string, reg ...*regexp.Regexp) []string {
+	modelMu.RLock()
+	defer modelMu.RUnlock()
+
 	result := make([]string, 0, 10)
 
 	var (
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..4b427f9 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,13 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	modelMu.RLock()
+	defer modelMu.RUnlock()
+
+	return viterbi(obs, states)
+}
+
+func viterbi(obs []rune, states []byte) (float64, []byte) {
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From c177ca16c9042efd61c93343e4d035ffef4557bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 21/36] fix: the server adds words while other requests read
 the dictionary

---
 tools/server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..aa50115 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu guards seg, the handlers run concurrently
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -82,6 +85,9 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 		text = req.PostFormValue("text")
 	}
 
+	segMu.RLock()
+	defer segMu.RUnlock()
+
 	if *hmm {
 		segs := seg.Cut(text, true)
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
@@ -111,7 +117,10 @@ func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
+
+	segMu.Lock()
 	seg.AddTokenForce(text, freq, pos)
+	segMu.Unlock()
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
 	w.Header().Set("Content-Type", "application/json")
-- 
2.43.0


From 2c85a5583679a8d3f0eb0396c5458d49cc770c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 22/36] fix: a tag that begins an IDF word has no weight

---
 hmm/idf/tag_extracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..cd3195b 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -79,7 +79,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0


From e301bcc4d37812e4d2068e76c9e2026263af17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 23/36] fix: the median of a loaded IDF dictionary is zero

---
 hmm/idf/idf.go           | 18 +++++++++++++++++-
 hmm/idf/tag_extracker.go |  4 +++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 65e1f42..dec8b35 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -45,7 +45,23 @@ func (i *Idf) LoadDict(files ...string) error {
 		files = i.seg.GetIdfPath(files...)
 	}
 
-	return i.seg.LoadDict(files...)
+	err := i.seg.LoadDict(files...)
+	i.updateMedian()
+	return err
+}
+
+// updateMedian calculates the median of all the loaded frequencies
+func (i *Idf) updateMedian() {
+	if i.seg.Dict == nil || len(i.seg.Dict.Tokens) == 0 {
+		return
+	}
+
+	i.freqs = make([]float64, 0, len(i.seg.Dict.Tokens))
+	for k := range i.seg.Dict.Tokens {
+		i.freqs = append(i.freqs, i.seg.Dict.Tokens[k].Freq())
+	}
+	sort.Float64s(i.freqs)
+	i.median = i.freqs[len(i.freqs)/2]
 }
 
 // Freq return the IDF of the word
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index cd3195b..7d32d6a 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -38,7 +38,9 @@ func (t *TagExtracter) LoadIdf(fileName ...string) error {
 // LoadIdfStr load and create a new Idf dictionary from the string.
 func (t *TagExtracter) LoadIdfStr(str string) error {
 	t.Idf = NewIdf()
-	return t.Idf.seg.LoadDictStr(str)
+	err := t.Idf.seg.LoadDictStr(str)
+	t.Idf.updateMedian()
+	return err
 }
 
 // LoadStopWords load and create a new StopWord dictionary from the file.
-- 
2.43.0


From 8ee1e746986e86a85804dbde0069ea0b48accee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 24/36] fix: AddToken panics on a new Idf

---
 hmm/idf/idf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index dec8b35..3927e8b 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -31,6 +31,12 @@ type Idf struct {
 
 // AddToken add a new word with IDF into the dictionary.
 func (i *Idf) AddToken(text string, freq float64, pos ...string) error {
+	if i.seg.Dict == nil {
+		i.seg.Dict = gse.NewDict()
+		i.seg.Load = true
+		i.seg.Init()
+	}
+
 	err := i.seg.AddToken(text, freq, pos...)
 
 	i.freqs = append(i.freqs, freq)
-- 
2.43.0


From 1c7ccfea678ebcae3485723889a2de63c212c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 25/36] fix: LoadStop reports a failing source as loaded

---
 stop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stop.go b/stop.go
index 43e4811..912e2aa 100644
--- a/stop.go
+++ b/stop.go
@@ -74,6 +74,9 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 				seg.StopWordMap[text] = true
 			}
 		}
+		if err := scanner.Err(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From dae3aef72ae7099bed196b6b89a96cc0736de350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 26/36] fix: the last line of a dictionary file is lost without
 a line break

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 177a0fe..1838e19 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -344,8 +344,8 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 		if fsErr != nil {
 			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
+				// End of file, the last line may come without a line break
+				if seg.DictSep == "" && size == 0 {
 					break
 				}
 
-- 
2.43.0


From ac0bf208482921a19c384145374f93208b680b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 27/36] fix: keep the words of the IDF dictionary whose weight
 is below two

---
 hmm/idf/idf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 3927e8b..8565c5c 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -15,6 +15,7 @@
 package idf
 
 import (
+	"math"
 	"sort"
 
 	"github.com/go-ego/gse"
@@ -87,5 +88,8 @@ func (i *Idf) TotalFreq() float64 {
 
 // NewIdf create a new Idf
 func NewIdf() *Idf {
-	return &Idf{freqs: make([]float64, 0)}
+	i := &Idf{freqs: make([]float64, 0)}
+	// the IDF of a common word is small, keep every positive one
+	i.seg.MinTokenFreq = math.SmallestNonzeroFloat64
+	return i
 }
-- 
2.43.0


From c8d3f2bf810e0b85ee2704114424c47806e93ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 28/36] fix: a word that is in the IDF dictionary already does
 not change the median

---
 hmm/idf/idf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 8565c5c..b4603ee 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -38,7 +38,12 @@ func (i *Idf) AddToken(text string, freq float64, pos ...string) error {
 		i.seg.Init()
 	}
 
+	num := i.seg.Dict.NumTokens()
 	err := i.seg.AddToken(text, freq, pos...)
+	if i.seg.Dict.NumTokens() == num {
+		// the word is in already, or can not be put in
+		return err
+	}
 
 	i.freqs = append(i.freqs, freq)
 	sort.Float64s(i.freqs)
-- 
2.43.0


From 24e25cd21de3a49f096aca43ee5b8983ea96f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 29/36] fix: the stop words of one keyword extracter are not
 those of all

---
 hmm/idf/stop_words.go    | 11 +++++++++--
 hmm/idf/tag_extracker.go |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index 202dd90..cb4f87d 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -59,7 +59,11 @@ func (s *StopWord) RemoveStop(text string) {
 // NewStopWord create a new StopWord with the default stop words.
 func NewStopWord() *StopWord {
 	s := new(StopWord)
-	s.stopWordMap = StopWordMap
+	// a map of its own, the default one is that of all
+	s.stopWordMap = make(map[string]bool, len(StopWordMap))
+	for k, v := range StopWordMap {
+		s.stopWordMap[k] = v
+	}
 	return s
 }
 
@@ -76,8 +80,11 @@ func (s *StopWord) LoadDict(files ...string) error {
 		return err
 	}
 
+	if s.stopWordMap == nil {
+		s.stopWordMap = make(map[string]bool, len(s.seg.StopWordMap))
+	}
 	for k, v := range s.seg.StopWordMap {
-		StopWordMap[k] = v
+		s.stopWordMap[k] = v
 	}
 
 	return nil
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 7d32d6a..c97d91d 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -19,13 +19,17 @@ type TagExtracter struct {
 
 // WithGse register the gse segmenter
 func (t *TagExtracter) WithGse(segs gse.Segmenter) {
-	t.stopWord = NewStopWord()
+	if t.stopWord == nil {
+		t.stopWord = NewStopWord()
+	}
 	t.seg = segs
 }
 
 // LoadDict load and create a new dictionary from the file
 func (t *TagExtracter) LoadDict(fileName ...string) error {
-	t.stopWord = NewStopWord()
+	if t.stopWord == nil {
+		t.stopWord = NewStopWord()
+	}
 	return t.seg.LoadDict(fileName...)
 }
 
-- 
2.43.0


From cc803992eaa36347a93184502ffc5241b720a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 30/36] fix: a segmenter without a dictionary panicked on
 lookups, cuts and changes

---
 dag.go        | 12 ++++++++++--
 dict_util.go  | 14 ++++++++++++++
 dictionary.go |  9 +++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 74c65b8..f524ea5 100644
--- a/dag.go
+++ b/dag.go
@@ -19,6 +19,8 @@ import (
 	"math"
 	"regexp"
 	"strings"
+
+	"github.com/vcaesar/cedar"
 )
 
 const (
@@ -37,11 +39,17 @@ type route struct {
 
 // Find find word in dictionary return word's freq, pos and existence
 func (seg *Segmenter) Find(str string) (float64, string, bool) {
+	if seg.Dict == nil {
+		return 0, "", false
+	}
 	return seg.Dict.Find([]byte(str))
 }
 
 // Value find word in dictionary return word's value
 func (seg *Segmenter) Value(str string) (int, int, error) {
+	if seg.Dict == nil {
+		return 0, 0, cedar.ErrNoKey
+	}
 	return seg.Dict.Value([]byte(str))
 }
 
@@ -178,7 +186,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	rs[n] = route{freq: 0.0, index: 0}
 	var r route
 
-	logT := math.Log(seg.Dict.totalFreq)
+	logT := math.Log(seg.Dict.TotalFreq())
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
@@ -386,7 +394,7 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
-	total := seg.Dict.totalFreq
+	total := seg.Dict.TotalFreq()
 
 	if len(words) > 1 {
 		for _, word := range words {
diff --git a/dict_util.go b/dict_util.go
index 1838e19..4038684 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -26,6 +26,8 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+
+	"github.com/vcaesar/cedar"
 )
 
 var (
@@ -87,6 +89,10 @@ func (seg *Segmenter) AddTokenForce(text string, freq float64, pos ...string) (e
 
 // ReAddToken remove and add token again
 func (seg *Segmenter) ReAddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		return cedar.ErrNoKey
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	err := seg.Dict.RemoveToken(token)
 	if err != nil {
@@ -97,6 +103,10 @@ func (seg *Segmenter) ReAddToken(text string, freq float64, pos ...string) error
 
 // RemoveToken remove token in dictionary
 func (seg *Segmenter) RemoveToken(text string) error {
+	if seg.Dict == nil {
+		return cedar.ErrNoKey
+	}
+
 	words := seg.SplitTextToWords([]byte(text))
 	token := Token{text: words}
 
@@ -466,6 +476,10 @@ func IsJp(segText string) bool {
 
 // CalcToken calc the segmenter token
 func (seg *Segmenter) CalcToken() {
+	if seg.Dict == nil {
+		return
+	}
+
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
 	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
diff --git a/dictionary.go b/dictionary.go
index e14ec39..8b9baee 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -36,16 +36,25 @@ func NewDict() *Dictionary {
 
 // MaxTokenLen the maximum length of the dictionary
 func (dict *Dictionary) MaxTokenLen() int {
+	if dict == nil {
+		return 0
+	}
 	return dict.maxTokenLen
 }
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
+	if dict == nil {
+		return 0
+	}
 	return len(dict.Tokens)
 }
 
 // TotalFreq the total frequency of the dictionary
 func (dict *Dictionary) TotalFreq() float64 {
+	if dict == nil {
+		return 0
+	}
 	return dict.totalFreq
 }
 
-- 
2.43.0


From f71a7c99f8bab7883fb9129a6b21154ed1d51efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 31/36] fix: AddToken and Reader panicked on a segmenter
 without a dictionary

---
 dict_util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index 4038684..2a24788 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -75,6 +75,12 @@ func (seg *Segmenter) ToToken(text string, freq float64, pos ...string) Token {
 
 // AddToken add a new text to the token
 func (seg *Segmenter) AddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Load = true
+		seg.Init()
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	return seg.Dict.AddToken(token)
 }
@@ -338,6 +344,12 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		file = files[0]
 	}
 
+	if seg.Dict == nil {
+		seg.Dict = NewDict()
+		seg.Load = true
+		seg.Init()
+	}
+
 	// Read the word segmentation line by line
 	line := 0
 	for {
-- 
2.43.0


From 9dc4579fc59cf3c3a585001cc08c7e1b05bfcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 32/36] fix: SuggestFreq of an empty list of words panicked

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index f524ea5..d9eca01 100644
--- a/dag.go
+++ b/dag.go
@@ -393,6 +393,10 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // SuggestFreq suggest the words frequency
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
+	if len(words) == 0 {
+		return 0
+	}
+
 	freq := 1.0
 	total := seg.Dict.TotalFreq()
 
-- 
2.43.0


From 3d00dea36ffc94d392fc00d10b0d59b9739ab8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 33/36] fix: ExtractTags panicked without an IDF dictionary or
 stop words

---
 hmm/idf/tag_extracker.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index c97d91d..f42d4e5 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -57,12 +57,20 @@ func (t *TagExtracter) LoadStopWords(fileName ...string) error {
 func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments) {
 	freqMap := make(map[string]float64)
 
+	idf, stop := t.Idf, t.stopWord
+	if idf == nil {
+		idf = NewIdf()
+	}
+	if stop == nil {
+		stop = NewStopWord()
+	}
+
 	for _, w := range t.seg.Cut(text, true) {
 		w = strings.TrimSpace(w)
 		if utf8.RuneCountInString(w) < 2 {
 			continue
 		}
-		if t.stopWord.IsStopWord(w) {
+		if stop.IsStopWord(w) {
 			continue
 		}
 
@@ -85,10 +93,10 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0 {
+		if freq, _, ok := idf.Freq(k); ok && freq > 0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
-			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
+			s = segment.Segment{Text: k, Weight: idf.median * v}
 		}
 		ws = append(ws, s)
 	}
-- 
2.43.0


From 6344a2e4159ead6575d4e11e19f77507af77d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 34/36] fix: StopWord.AddStop panicked on a zero StopWord

---
 hmm/idf/stop_words.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index cb4f87d..6d740a8 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -48,6 +48,9 @@ type StopWord struct {
 
 // AddStop add a token to StopWord dictionary.
 func (s *StopWord) AddStop(text string) {
+	if s.stopWordMap == nil {
+		s.stopWordMap = make(map[string]bool)
+	}
 	s.stopWordMap[text] = true
 }
 
-- 
2.43.0


From 2a85aeae798bb7e9f9989b288142ee9d665ad7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:32 +0000
Subject: [PATCH 35/36] fix: ExtractTags of a negative number of tags panicked

---
 hmm/idf/tag_extracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index f42d4e5..55c9aa2 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -103,6 +103,10 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 
 	sort.Sort(sort.Reverse(ws))
 
+	if topK < 0 {
+		topK = 0
+	}
+
 	if len(ws) > topK {
 		tags = ws[:topK]
 		return
-- 
2.43.0


From 7625bafce2addf401eb253eddde36a15bfae1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 36/36] fix: Viterbi of no characters panicked

---
 hmm/viterbi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 4b427f9..d9aac13 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -73,6 +73,10 @@ func Viterbi(obs []rune, states []byte) (float64, []byte) {
 }
 
 func viterbi(obs []rune, states []byte) (float64, []byte) {
+	if len(obs) == 0 {
+		return 0, nil
+	}
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0

