From 6f85f33452ee016942b8652aacdf1117f55a8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:36 +0000
Subject: [PATCH 01/47] fix: Transpose moved the cursor past the end of a
 one-character line

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..b1066a4 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -274,7 +274,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From a676bce189ffc213b6e9e721552397160d5f8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:37 +0000
Subject: [PATCH 02/47] fix: Replace crashed when the cursor is at the end of
 the line

---
 runebuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index b1066a4..0baec99 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
-- 
2.43.0


From dc6de61d1dce4d1fb42a608cec65de9d83b74f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:38 +0000
Subject: [PATCH 03/47] fix: MoveToEndWord crashed on the last character

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 0baec99..2a6562a 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -314,7 +314,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From 9c54f84891b5b16193f420912b471e719db67a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 04/47] fix: BackEscapeWord on the first word also deleted the
 text after the cursor

---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 2a6562a..6aa088f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -343,7 +343,8 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From 5ee21418136e0815e134699b59984d9684e6ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 05/47] fix: the edit buffer shared memory with history items
 and callers

---
 runebuf.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 6aa088f..6cad253 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -47,7 +47,7 @@ func (r *RuneBuffer) OnWidthChange(newWidth int) {
 
 func (r *RuneBuffer) Backup() {
 	r.Lock()
-	r.bck = &runeBufferBck{r.buf, r.idx}
+	r.bck = &runeBufferBck{runes.Copy(r.buf), r.idx}
 	r.Unlock()
 }
 
@@ -56,7 +56,7 @@ func (r *RuneBuffer) Restore() {
 		if r.bck == nil {
 			return
 		}
-		r.buf = r.bck.buf
+		r.buf = runes.Copy(r.bck.buf)
 		r.idx = r.bck.idx
 	})
 }
@@ -164,7 +164,8 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		// do not grow s in place, its array may belong to the caller
+		tail := append(runes.Copy(s), r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
@@ -576,6 +577,9 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
+	// buf may be a history item or belong to a listener, and r.buf is edited
+	// in place
+	buf = runes.Copy(buf)
 	r.Refresh(func() {
 		r.buf = buf
 		r.idx = idx
-- 
2.43.0


From b0b166e5fb53ef0f74661de2d5cce322b5b4b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 06/47] fix: the edit buffer was accessed without its lock

---
 complete.go |  4 ++--
 runebuf.go  | 66 +++++++++++++++++++++++++++++++++++++----------------
 search.go   |  6 ++---
 3 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/complete.go b/complete.go
index c08c994..96ddcb3 100644
--- a/complete.go
+++ b/complete.go
@@ -84,7 +84,7 @@ func (o *opCompleter) OnComplete() bool {
 
 	o.ExitCompleteSelectMode()
 	o.candidateSource = rs
-	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
+	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.Pos())
 	if len(newLines) == 0 {
 		o.ExitCompleteMode(false)
 		return true
@@ -237,7 +237,7 @@ func (o *opCompleter) CompleteRefresh() {
 
 	// move back
 	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	fmt.Fprintf(buf, "\033[%dC", o.op.buf.idx+o.op.buf.PromptLen())
+	fmt.Fprintf(buf, "\033[%dC", o.op.buf.Pos()+o.op.buf.PromptLen())
 	buf.Flush()
 }
 
diff --git a/runebuf.go b/runebuf.go
index 6cad253..ce774a7 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -88,6 +88,9 @@ func (r *RuneBuffer) SetMask(m rune) {
 func (r *RuneBuffer) CurrentWidth(x int) int {
 	r.Lock()
 	defer r.Unlock()
+	if x > len(r.buf) {
+		x = len(r.buf)
+	}
 	return runes.WidthAll(r.buf[:x])
 }
 
@@ -216,23 +219,24 @@ func (r *RuneBuffer) Delete() (success bool) {
 }
 
 func (r *RuneBuffer) DeleteWord() {
-	if r.idx == len(r.buf) {
-		return
-	}
-	init := r.idx
-	for init < len(r.buf) && IsWordBreak(r.buf[init]) {
-		init++
-	}
-	for i := init + 1; i < len(r.buf); i++ {
-		if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
-			r.pushKill(r.buf[r.idx : i-1])
-			r.Refresh(func() {
-				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
-			})
+	r.Refresh(func() {
+		if r.idx == len(r.buf) {
 			return
 		}
-	}
-	r.Kill()
+		init := r.idx
+		for init < len(r.buf) && IsWordBreak(r.buf[init]) {
+			init++
+		}
+		for i := init + 1; i < len(r.buf); i++ {
+			if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
+				r.pushKill(r.buf[r.idx : i-1])
+				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
+				return
+			}
+		}
+		r.pushKill(r.buf[r.idx:])
+		r.buf = r.buf[:r.idx]
+	})
 }
 
 func (r *RuneBuffer) MoveToPrevWord() (success bool) {
@@ -351,10 +355,10 @@ func (r *RuneBuffer) BackEscapeWord() {
 }
 
 func (r *RuneBuffer) Yank() {
-	if len(r.lastKill) == 0 {
-		return
-	}
 	r.Refresh(func() {
+		if len(r.lastKill) == 0 {
+			return
+		}
 		buf := make([]rune, 0, len(r.buf)+len(r.lastKill))
 		buf = append(buf, r.buf[:r.idx]...)
 		buf = append(buf, r.lastKill...)
@@ -386,11 +390,17 @@ func (r *RuneBuffer) MoveToLineEnd() {
 }
 
 func (r *RuneBuffer) LineCount(width int) int {
+	r.Lock()
+	defer r.Unlock()
+	return r.lineCount(width)
+}
+
+func (r *RuneBuffer) lineCount(width int) int {
 	if width == -1 {
 		width = r.width
 	}
 	return LineCount(width,
-		runes.WidthAll(r.buf)+r.PromptLen())
+		runes.WidthAll(r.buf)+r.promptLen())
 }
 
 func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
@@ -449,7 +459,12 @@ func (r *RuneBuffer) idxLine(width int) int {
 }
 
 func (r *RuneBuffer) CursorLineCount() int {
-	return r.LineCount(r.width) - r.IdxLine(r.width)
+	r.Lock()
+	defer r.Unlock()
+	if n := r.lineCount(r.width) - r.idxLine(r.width); n > 0 {
+		return n
+	}
+	return 0
 }
 
 func (r *RuneBuffer) Refresh(f func()) {
@@ -545,6 +560,8 @@ func (r *RuneBuffer) getBackspaceSequence() []byte {
 }
 
 func (r *RuneBuffer) Reset() []rune {
+	r.Lock()
+	defer r.Unlock()
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
@@ -562,6 +579,15 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	if end < start {
 		panic("end < start")
 	}
+	r.Lock()
+	defer r.Unlock()
+	// the line may have changed since the caller looked at it
+	if end > len(r.buf) {
+		end = len(r.buf)
+	}
+	if start > end {
+		start = end
+	}
 
 	// goto start
 	move := start - r.idx
diff --git a/search.go b/search.go
index 52e8ff0..72a0c6b 100644
--- a/search.go
+++ b/search.go
@@ -59,9 +59,9 @@ func (o *opSearch) SearchBackspace() {
 
 func (o *opSearch) findHistoryBy(isNewSearch bool) (int, *list.Element) {
 	if o.dir == S_DIR_BCK {
-		return o.history.FindBck(isNewSearch, o.data, o.buf.idx)
+		return o.history.FindBck(isNewSearch, o.data, o.buf.Pos())
 	}
-	return o.history.FindFwd(isNewSearch, o.data, o.buf.idx)
+	return o.history.FindFwd(isNewSearch, o.data, o.buf.Pos())
 }
 
 func (o *opSearch) search(isChange bool) bool {
@@ -131,7 +131,7 @@ func (o *opSearch) SearchRefresh(x int) {
 		o.state = S_STATE_FOUND
 	}
 	if x < 0 {
-		x = o.buf.idx
+		x = o.buf.Pos()
 	}
 	x = o.buf.CurrentWidth(x)
 	x += o.buf.PromptLen()
-- 
2.43.0


From 4c7195e9c9236591160c0b4953633c99cad2d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 07/47] fix: cancelling a search on a fresh prompt crashed

---
 search.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 72a0c6b..fc6f45d 100644
--- a/search.go
+++ b/search.go
@@ -115,7 +115,10 @@ func (o *opSearch) SearchMode(dir int) bool {
 func (o *opSearch) ExitSearchMode(revert bool) {
 	if revert {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		// there is no history item to go back to on a fresh prompt
+		if o.source != nil {
+			o.buf.Set(o.history.showItem(o.source.Value))
+		}
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
-- 
2.43.0


From b3ad04e7008a84b201738c41fe58ebf1a4027d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 08/47] fix: saving a line after recalling another saved the
 recalled one or crashed

---
 history.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/history.go b/history.go
index 6b17c46..d950fb7 100644
--- a/history.go
+++ b/history.go
@@ -275,14 +275,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		}
 	}
 
-	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
-		// set current to last item
-		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
-	}
+	// set current to last item
+	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
 	err = o.Update(current, true)
-- 
2.43.0


From 7615ed72bcf90058bda6866db21265c7372094d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 09/47] fix: an unknown or zero screen width crashed search and
 completion

---
 runebuf.go | 2 +-
 search.go  | 4 +++-
 utils.go   | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index ce774a7..399d7dd 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -451,7 +451,7 @@ func (r *RuneBuffer) IdxLine(width int) int {
 }
 
 func (r *RuneBuffer) idxLine(width int) int {
-	if width == 0 {
+	if width <= 0 {
 		return 0
 	}
 	sp := r.getSplitByLine(r.buf[:r.idx])
diff --git a/search.go b/search.go
index fc6f45d..21a1ff3 100644
--- a/search.go
+++ b/search.go
@@ -138,7 +138,9 @@ func (o *opSearch) SearchRefresh(x int) {
 	}
 	x = o.buf.CurrentWidth(x)
 	x += o.buf.PromptLen()
-	x = x % o.width
+	if o.width > 0 {
+		x = x % o.width
+	}
 
 	if o.markStart > 0 {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
diff --git a/utils.go b/utils.go
index 0706dd4..e4d6df7 100644
--- a/utils.go
+++ b/utils.go
@@ -232,6 +232,9 @@ func SplitByLine(start, screenWidth int, rs []rune) []string {
 
 // calculate how many lines for N character
 func LineCount(screenWidth, w int) int {
+	if screenWidth <= 0 {
+		return 0
+	}
 	r := w / screenWidth
 	if w%screenWidth != 0 {
 		r++
-- 
2.43.0


From aeeaf2c991344b21d3ef5c87754664bbd2c24b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 10/47] fix: editing after leaving the completion menu crashed

---
 complete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index 96ddcb3..7ca5471 100644
--- a/complete.go
+++ b/complete.go
@@ -186,7 +186,7 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
-- 
2.43.0


From ad878e26532e471f280c86bea702341385610a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 11/47] fix: navigating candidates wider than the screen
 crashed

---
 complete.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index 7ca5471..3086926 100644
--- a/complete.go
+++ b/complete.go
@@ -203,8 +203,10 @@ func (o *opCompleter) CompleteRefresh() {
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum > 0 {
 		colWidth += (width - (colWidth * colNum)) / colNum
+	} else {
+		colNum = 1
 	}
 
 	o.candidateColNum = colNum
-- 
2.43.0


From dcddfb6afc66a4678b90a16c4a970e474233c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 12/47] fix: completing after wide characters crashed

---
 complete.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/complete.go b/complete.go
index 3086926..a2c4876 100644
--- a/complete.go
+++ b/complete.go
@@ -197,8 +197,9 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
 	same := o.op.buf.RuneSlice(-o.candidateOff)
+	sameWidth := runes.WidthAll(same)
+	colWidth += sameWidth + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
@@ -223,7 +224,9 @@ func (o *opCompleter) CompleteRefresh() {
 		}
 		buf.WriteString(string(same))
 		buf.WriteString(string(c))
-		buf.Write(bytes.Repeat([]byte(" "), colWidth-runes.WidthAll(c)-runes.WidthAll(same)))
+		if pad := colWidth - runes.WidthAll(c) - sameWidth; pad > 0 {
+			buf.Write(bytes.Repeat([]byte(" "), pad))
+		}
 
 		if inSelect {
 			buf.WriteString("\033[0m")
-- 
2.43.0


From 1cce67dc921eea33b23dd26f8f96acde5e56c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/47] fix: the completion menu crashed when the line got
 shorter than the shared prefix

---
 runebuf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index 399d7dd..05ce5bf 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -110,10 +110,16 @@ func (r *RuneBuffer) RuneSlice(i int) []rune {
 	defer r.Unlock()
 
 	if i > 0 {
+		if i > len(r.buf)-r.idx {
+			i = len(r.buf) - r.idx
+		}
 		rs := make([]rune, i)
 		copy(rs, r.buf[r.idx:r.idx+i])
 		return rs
 	}
+	if -i > r.idx {
+		i = -r.idx
+	}
 	rs := make([]rune, -i)
 	copy(rs, r.buf[r.idx+i:r.idx])
 	return rs
-- 
2.43.0


From cd65c2650be0a649cd202af184de12121e69f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:07 +0000
Subject: [PATCH 14/47] fix: completion wrote into the slices of the completer

---
 complete.go         | 3 ++-
 complete_segment.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/complete.go b/complete.go
index a2c4876..fb4ca10 100644
--- a/complete.go
+++ b/complete.go
@@ -98,7 +98,8 @@ func (o *opCompleter) OnComplete() bool {
 			return true
 		}
 
-		same, size := runes.Aggregate(newLines)
+		// Aggregate changes its argument, which belongs to the completer
+		same, size := runes.Aggregate(append([][]rune{}, newLines...))
 		if size > 0 {
 			buf.WriteRunes(same)
 			o.ExitCompleteMode(false)
diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..5fe3352 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -76,7 +76,7 @@ func (c *SegmentComplete) Do(line []rune, pos int) (newLine [][]rune, offset int
 	cands := c.DoSegment(segment, idx)
 	newLine, offset = RetSegment(segment, cands, idx)
 	for idx := range newLine {
-		newLine[idx] = append(newLine[idx], ' ')
+		newLine[idx] = append(runes.Copy(newLine[idx]), ' ')
 	}
 	return newLine, offset
 }
-- 
2.43.0


From 173f7ca136f8c17bfc2c676e1f9d5134fb413fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 15/47] fix: ColorFilter crashed on a trailing escape character

---
 runes.go       | 2 +-
 runes/runes.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
diff --git a/runes/runes.go b/runes/runes.go
index b069440..925b09c 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -69,7 +69,7 @@ func Index(r rune, rs []rune) int {
 func ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 316c35aade6c05cbd6524ce6f57def8108197e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 16/47] fix: Aggregate crashed without candidates

---
 runes.go       | 3 +++
 runes/runes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/runes.go b/runes.go
index a6fb97c..bee6838 100644
--- a/runes.go
+++ b/runes.go
@@ -188,6 +188,9 @@ func (Runes) HasPrefix(r, prefix []rune) bool {
 }
 
 func (Runes) Aggregate(candicate [][]rune) (same []rune, size int) {
+	if len(candicate) == 0 {
+		return
+	}
 	for i := 0; i < len(candicate[0]); i++ {
 		for j := 0; j < len(candicate)-1; j++ {
 			if i >= len(candicate[j]) || i >= len(candicate[j+1]) {
diff --git a/runes/runes.go b/runes/runes.go
index 925b09c..a97ee4b 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -131,6 +131,9 @@ func HasPrefix(r, prefix []rune) bool {
 }
 
 func Aggregate(candicate [][]rune) (same []rune, size int) {
+	if len(candicate) == 0 {
+		return
+	}
 	for i := 0; i < len(candicate[0]); i++ {
 		for j := 0; j < len(candicate)-1; j++ {
 			if i >= len(candicate[j]) || i >= len(candicate[j+1]) {
-- 
2.43.0


From 75e1e30602ec44b16834b8947b7ace46bb0a6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 17/47] fix: Terminal.Close could miss the goroutine it waits
 for

---
 terminal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 38413d0..ddb2338 100644
--- a/terminal.go
+++ b/terminal.go
@@ -35,6 +35,7 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		sizeChan: make(chan string, 1),
 	}
 
+	t.wg.Add(1)
 	go t.ioloop()
 	return t, nil
 }
@@ -116,7 +117,6 @@ func (t *Terminal) KickRead() {
 }
 
 func (t *Terminal) ioloop() {
-	t.wg.Add(1)
 	defer func() {
 		t.wg.Done()
 		close(t.outchan)
-- 
2.43.0


From 6997608903460b5a4987b5f0c78a8fb25e6e4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 18/47] fix: Terminal.Close could block forever on a key nobody
 reads

---
 terminal.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index ddb2338..671896e 100644
--- a/terminal.go
+++ b/terminal.go
@@ -199,7 +199,9 @@ func (t *Terminal) ioloop() {
 		switch r {
 		case CharEsc:
 			if t.cfg.VimMode {
-				t.outchan <- r
+				if !t.sendRune(r) {
+					return
+				}
 				break
 			}
 			isEscape = true
@@ -207,12 +209,24 @@ func (t *Terminal) ioloop() {
 			expectNextChar = false
 			fallthrough
 		default:
-			t.outchan <- r
+			if !t.sendRune(r) {
+				return
+			}
 		}
 	}
 
 }
 
+// sendRune hands r to ReadRune, it gives up if the terminal is closed.
+func (t *Terminal) sendRune(r rune) bool {
+	select {
+	case t.outchan <- r:
+		return true
+	case <-t.stopChan:
+		return false
+	}
+}
+
 func (t *Terminal) Bell() {
 	fmt.Fprintf(t, "%c", CharBell)
 }
-- 
2.43.0


From aaa8b1c81b4767af81030f9b4fbafde72efdaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 19/47] fix: Ctrl-Space was taken for EOF

---
 terminal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terminal.go b/terminal.go
index 671896e..77b1ef7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -197,6 +197,8 @@ func (t *Terminal) ioloop() {
 
 		expectNextChar = true
 		switch r {
+		case 0:
+			// NUL (Ctrl-Space), ReadRune would report it as EOF
 		case CharEsc:
 			if t.cfg.VimMode {
 				if !t.sendRune(r) {
-- 
2.43.0


From 40b78b81d796a4a3d2a48d38ff7b3882c7faeba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 20/47] fix: vim normal mode hung on a line-ending key it
 ignored or used as argument

---
 operation.go | 10 +++++++++-
 terminal.go  | 10 ++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index b60939a..6fca24e 100644
--- a/operation.go
+++ b/operation.go
@@ -156,8 +156,16 @@ func (o *Operation) ioloop() {
 		}
 
 		if o.IsEnableVimMode() {
-			r = o.HandleVim(r, o.t.ReadRune)
+			last := r
+			r = o.HandleVim(r, func() rune {
+				last = o.t.ReadRune()
+				return last
+			})
 			if r == 0 {
+				if pausesReading(last) {
+					// nobody else will handle it
+					o.t.KickRead()
+				}
 				continue
 			}
 		}
diff --git a/terminal.go b/terminal.go
index 77b1ef7..11311b7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -116,6 +116,16 @@ func (t *Terminal) KickRead() {
 	}
 }
 
+// pausesReading reports whether the terminal stops reading after r until it is
+// kicked again.
+func pausesReading(r rune) bool {
+	switch r {
+	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+		return true
+	}
+	return false
+}
+
 func (t *Terminal) ioloop() {
 	defer func() {
 		t.wg.Done()
-- 
2.43.0


From 182ee14d6c6f8459d04b9d9fd3f4a69b2912ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:54 +0000
Subject: [PATCH 21/47] fix: translating a line-ending key or dropping EOF in a
 filter hung the session

---
 operation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 6fca24e..f2564f1 100644
--- a/operation.go
+++ b/operation.go
@@ -110,9 +110,13 @@ func (o *Operation) ioloop() {
 		keepInCompleteMode := false
 		r := o.t.ReadRune()
 
-		if o.GetConfig().FuncFilterInputRune != nil {
+		if r != 0 && o.GetConfig().FuncFilterInputRune != nil {
 			var process bool
+			in := r
 			r, process = o.GetConfig().FuncFilterInputRune(r)
+			if pausesReading(in) && !pausesReading(r) {
+				o.t.KickRead()
+			}
 			if !process {
 				o.t.KickRead()
 				o.buf.Refresh(nil) // to refresh the line
-- 
2.43.0


From 6386998b7d35bf17000cb2a91acc03e5de2f401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 22/47] fix: reading again after the input ended hung

---
 operation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operation.go b/operation.go
index f2564f1..8615027 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,7 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	eofChan chan struct{} // closed after the input ended
 	w       io.Writer
 
 	history *opHistory
@@ -73,6 +74,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
+		eofChan: make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -105,6 +107,7 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	defer close(o.eofChan)
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
@@ -409,6 +412,8 @@ func (o *Operation) Runes() ([]rune, error) {
 			return e.Line, ErrInterrupt
 		}
 		return nil, err
+	case <-o.eofChan:
+		return nil, io.EOF
 	}
 }
 
-- 
2.43.0


From 21f6665f6a256337430273de1a8bbfad28f18ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 23/47] fix: Close hung while a read was pending

---
 readline.go | 4 +++-
 std.go      | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index 63b9171..9610159 100644
--- a/readline.go
+++ b/readline.go
@@ -98,8 +98,10 @@ func (c *Config) Init() error {
 	}
 	c.inited = true
 	if c.Stdin == nil {
-		c.Stdin = NewCancelableStdin(Stdin)
+		c.Stdin = Stdin
 	}
+	// Close must be able to interrupt a pending read
+	c.Stdin = NewCancelableStdin(c.Stdin)
 
 	c.Stdin, c.StdinWriter = NewFillableStdin(c.Stdin)
 
diff --git a/std.go b/std.go
index 61d44b7..e098a04 100644
--- a/std.go
+++ b/std.go
@@ -193,5 +193,8 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 
 func (s *FillableStdin) Close() error {
 	s.stdinBuffer.Close()
+	if closer, ok := s.stdin.(io.Closer); ok {
+		return closer.Close()
+	}
 	return nil
 }
-- 
2.43.0


From fc890b9216c58ae746a934b122c454eaa13e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 24/47] fix: a short read dropped the rest of the pre-filled
 input

---
 std.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std.go b/std.go
index e098a04..83ea378 100644
--- a/std.go
+++ b/std.go
@@ -180,7 +180,7 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	}
 	if i > 0 {
 		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
+		s.buf = s.buf[n:]
 		cerr := s.bufErr
 		s.bufErr = nil
 		s.Unlock()
-- 
2.43.0


From 35aba26a78357b1addfb95a88bfa8f68f7fbfd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 25/47] fix: the state of the pre-filled input was written
 without its lock

---
 std.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/std.go b/std.go
index 83ea378..ece5af9 100644
--- a/std.go
+++ b/std.go
@@ -157,16 +157,14 @@ func (s *FillableStdin) ioloop() {
 	go func() {
 		for {
 			bufR := make([]byte, 100)
-			var n int
-			n, s.bufErr = s.stdinBuffer.Read(bufR)
-			if s.bufErr != nil {
-				if s.bufErr == io.ErrClosedPipe {
-					break
-				}
-			}
+			n, err := s.stdinBuffer.Read(bufR)
 			s.Lock()
 			s.buf = append(s.buf, bufR[:n]...)
+			s.bufErr = err
 			s.Unlock()
+			if err != nil {
+				break
+			}
 		}
 	}()
 }
-- 
2.43.0


From b422b216aaff7f3dd1003c10213cfa65dd52e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 26/47] fix: a failed write while compacting replaced the
 history file

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index d950fb7..646f32f 100644
--- a/history.go
+++ b/history.go
@@ -121,7 +121,11 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
+	if err = buf.Flush(); err != nil {
+		// keep the old file
+		fd.Close()
+		return
+	}
 
 	// replace history file
 	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
-- 
2.43.0


From de4424a99204fb9a4b0f482046d51329f86d700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 27/47] fix: disabling history truncated the existing history
 file

---
 history.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 646f32f..1b2042c 100644
--- a/history.go
+++ b/history.go
@@ -57,7 +57,8 @@ func (o *opHistory) Init() {
 }
 
 func (o *opHistory) initHistory() {
-	if o.cfg.HistoryFile != "" {
+	// a negative limit disables the history, leave the file alone
+	if o.cfg.HistoryFile != "" && o.cfg.HistoryLimit >= 0 {
 		o.historyUpdatePath(o.cfg.HistoryFile)
 	}
 }
-- 
2.43.0


From 1241863ce18d6552d75f1133117a5606dbc2772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:34 +0000
Subject: [PATCH 28/47] fix: an unterminated last line of the history file was
 lost

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 1b2042c..98366d7 100644
--- a/history.go
+++ b/history.go
@@ -77,7 +77,11 @@ func (o *opHistory) historyUpdatePath(path string) {
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
 		if err != nil {
-			break
+			if len(line) == 0 {
+				break
+			}
+			// the last line is not terminated, do not glue the next one to it
+			f.WriteString("\n")
 		}
 		// ignore the empty line
 		line = strings.TrimSpace(line)
-- 
2.43.0


From f9979d480319a9dde11474c39cf87ff9cc1c3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 29/47] fix: reading a password duplicated the history

---
 history.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/history.go b/history.go
index 98366d7..e3b2109 100644
--- a/history.go
+++ b/history.go
@@ -28,6 +28,7 @@ type opHistory struct {
 	fd         *os.File
 	fdLock     sync.Mutex
 	enable     bool
+	loaded     bool
 }
 
 func newOpHistory(cfg *Config) (o *opHistory) {
@@ -72,6 +73,11 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	if o.loaded {
+		// just reopened, everything in the file is known already
+		return
+	}
+	o.loaded = true
 	r := bufio.NewReader(o.fd)
 	total := 0
 	for ; ; total++ {
-- 
2.43.0


From 9729233fc79d127650906545afd0e6030def008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 30/47] fix: SetHistoryPath neither loaded nor saved the
 history

---
 operation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 8615027..c98d165 100644
--- a/operation.go
+++ b/operation.go
@@ -461,6 +461,13 @@ func (o *Operation) Close() {
 }
 
 func (o *Operation) SetHistoryPath(path string) {
+	o.setHistoryPath(path)
+	o.cfg.opHistory = o.history
+	o.opSearch.history = o.history
+	o.history.Init()
+}
+
+func (o *Operation) setHistoryPath(path string) {
 	if o.history != nil {
 		o.history.Close()
 	}
@@ -489,7 +496,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-		op.SetHistoryPath(cfg.HistoryFile)
+		op.setHistoryPath(cfg.HistoryFile)
 		cfg.opHistory = op.history
 		cfg.opSearch = newOpSearch(op.buf.w, op.buf, op.history, cfg, width)
 	}
-- 
2.43.0


From 442aaeadedc267b77bb14d46d74aa7010ccc2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 31/47] fix: a line was saved only after the caller got it,
 possibly to another history

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index c98d165..4900d32 100644
--- a/operation.go
+++ b/operation.go
@@ -268,13 +268,13 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			o.outchan <- data
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
 			} else {
 				isUpdateHistory = false
 			}
+			o.outchan <- data
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
-- 
2.43.0


From fb80772def43e8256dffd7b29248aa76655886e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:39 +0000
Subject: [PATCH 32/47] fix: SetConfig overwrote the mask rune of the previous
 config

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 4900d32..22d88ae 100644
--- a/operation.go
+++ b/operation.go
@@ -490,9 +490,9 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 	old := op.cfg
 	op.cfg = cfg
+	op.buf.SetConfig(cfg)
 	op.SetPrompt(cfg.Prompt)
 	op.SetMaskRune(cfg.MaskRune)
-	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-- 
2.43.0


From 28c6ae10c434fbf981c768cd4a9639b8e6ee2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 33/47] fix: reading a password reset the prompt

---
 password.go | 7 +++++--
 runebuf.go  | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 414288c..fa9a2f2 100644
--- a/password.go
+++ b/password.go
@@ -1,8 +1,9 @@
 package readline
 
 type opPassword struct {
-	o         *Operation
-	backupCfg *Config
+	o            *Operation
+	backupCfg    *Config
+	backupPrompt string
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -11,10 +12,12 @@ func newOpPassword(o *Operation) *opPassword {
 
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
+	o.o.SetPrompt(o.backupPrompt)
 	o.backupCfg = nil
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
+	o.backupPrompt = o.o.buf.Prompt()
 	o.backupCfg, err = o.o.SetConfig(cfg)
 	return
 }
diff --git a/runebuf.go b/runebuf.go
index 05ce5bf..6b03946 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -622,6 +622,12 @@ func (r *RuneBuffer) Set(buf []rune) {
 	r.SetWithIdx(len(buf), buf)
 }
 
+func (r *RuneBuffer) Prompt() string {
+	r.Lock()
+	defer r.Unlock()
+	return string(r.prompt)
+}
+
 func (r *RuneBuffer) SetPrompt(prompt string) {
 	r.Lock()
 	r.prompt = []rune(prompt)
-- 
2.43.0


From fcd4779959aaa601d1f7b180cb52c642ab1b932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 34/47] fix: a config without Painter crashed when set at
 runtime

---
 readline.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readline.go b/readline.go
index 9610159..df5bea1 100644
--- a/readline.go
+++ b/readline.go
@@ -129,6 +129,9 @@ func (c *Config) Init() error {
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.FuncGetWidth == nil {
 		c.FuncGetWidth = GetScreenWidth
 	}
@@ -169,9 +172,6 @@ func NewEx(cfg *Config) (*Instance, error) {
 		return nil, err
 	}
 	rl := t.Readline()
-	if cfg.Painter == nil {
-		cfg.Painter = &defaultPainter{}
-	}
 	return &Instance{
 		Config:    cfg,
 		Terminal:  t,
-- 
2.43.0


From bbb55d2a26b181557e37a64755d306aa2e7dff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 35/47] fix: search and completion echoed masked input

---
 complete.go | 6 ++++++
 search.go   | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index fb4ca10..c13ea7a 100644
--- a/complete.go
+++ b/complete.go
@@ -107,6 +107,12 @@ func (o *opCompleter) OnComplete() bool {
 		}
 	}
 
+	// the menu would show what the mask hides
+	if o.op.cfg.EnableMask {
+		o.ExitCompleteMode(false)
+		return false
+	}
+
 	o.EnterCompleteMode(offset, newLines)
 	return true
 }
diff --git a/search.go b/search.go
index 21a1ff3..b34bdca 100644
--- a/search.go
+++ b/search.go
@@ -97,7 +97,8 @@ func (o *opSearch) SearchChar(r rune) {
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
-	if o.width == 0 {
+	// searching would show what the mask hides
+	if o.width == 0 || o.cfg.EnableMask {
 		return false
 	}
 	alreadyInMode := o.inMode
-- 
2.43.0


From 2306836a8793cfc5a5ceacea3113fb7c3c369d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:43 +0000
Subject: [PATCH 36/47] fix: ReadPassword did not turn the echo on again

---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 0393ec7919fb2cde695c6fb9f6941573fc65c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:43 +0000
Subject: [PATCH 37/47] fix: colour codes without a table entry crashed on
 windows

---
 ansi_windows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi_windows.go b/ansi_windows.go
index 63b908c..5b3a6eb 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -156,10 +156,10 @@ func (a *ANSIWriterCtx) ioloopEscSeq(w *bufio.Writer, r rune, argptr *[]string)
 				w.WriteString("[" + strings.Join(arg, ";") + "m")
 				break
 			}
-			if c >= 30 && c < 40 {
+			if c >= 30 && c < 30+len(ColorTableFg) {
 				color ^= COLOR_FINTENSITY
 				color |= ColorTableFg[c-30]
-			} else if c >= 40 && c < 50 {
+			} else if c >= 40 && c < 40+len(ColorTableBg) {
 				color ^= COLOR_BINTENSITY
 				color |= ColorTableBg[c-40]
 			} else if c == 4 {
-- 
2.43.0


From f118583d84edcfec6a99a5f5adf022af7aa9fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 38/47] fix: a malformed remote message crashed the receiver

---
 remote.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/remote.go b/remote.go
index 74dbf56..77f55d8 100644
--- a/remote.go
+++ b/remote.go
@@ -228,6 +228,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -236,6 +239,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
 	if r.funcWidthChan != nil {
 		r.funcWidthChan()
@@ -262,6 +268,10 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
+	// the length counts the type, too
+	if length < 2 {
+		return nil, fmt.Errorf("invalid message length: %d", length)
+	}
 	m.Data = make([]byte, int(length)-2)
 	if _, err := io.ReadFull(r, m.Data); err != nil {
 		return nil, err
-- 
2.43.0


From a1b72260bc0cc722b0319418df36ca1c0b07d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 39/47] fix: remote reads and writes hung after the connection
 was closed

---
 remote.go | 52 +++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/remote.go b/remote.go
index 77f55d8..6d52ac9 100644
--- a/remote.go
+++ b/remote.go
@@ -61,7 +61,7 @@ func NewRemoteSvr(conn net.Conn) (*RemoteSvr, error) {
 		width:      -1,
 		conn:       conn,
 		writeChan:  make(chan *writeCtx),
-		reciveChan: make(chan struct{}),
+		reciveChan: make(chan struct{}, 1),
 		stopChan:   make(chan struct{}),
 	}
 	buf := bufio.NewReader(rs.conn)
@@ -125,41 +125,43 @@ func (r *RemoteSvr) checkEOF() error {
 }
 
 func (r *RemoteSvr) Read(b []byte) (int, error) {
-	r.dataBufM.Lock()
-	n, err := r.dataBuf.Read(b)
-	r.dataBufM.Unlock()
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
-		}
-	}
-
-	if n == 0 && err == io.EOF {
-		<-r.reciveChan
+	for closed := false; ; {
+		// look for the end first, data received before it must not be lost
+		eof := r.checkEOF()
 		r.dataBufM.Lock()
-		n, err = r.dataBuf.Read(b)
+		n, err := r.dataBuf.Read(b)
 		r.dataBufM.Unlock()
-	}
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
+		if n > 0 || err == nil {
+			return n, err
+		}
+		if eof != nil || closed {
+			return 0, io.EOF
+		}
+		select {
+		case <-r.reciveChan:
+		case <-r.stopChan:
+			closed = true
 		}
 	}
-
-	return n, err
 }
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
+	return r.sendMsg(m).err
+}
+
+// sendMsg passes m to writeLoop and waits for the result.
+func (r *RemoteSvr) sendMsg(m *Message) *writeReply {
 	ctx := newWriteCtx(m)
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.err
+	select {
+	case r.writeChan <- ctx:
+		return <-ctx.reply
+	case <-r.stopChan:
+		return &writeReply{0, io.ErrClosedPipe}
+	}
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	ctx := newWriteCtx(NewMessage(T_DATA, b))
-	r.writeChan <- ctx
-	reply := <-ctx.reply
+	reply := r.sendMsg(NewMessage(T_DATA, b))
 	return reply.n, reply.err
 }
 
-- 
2.43.0


From 1cb490b9dad434fb146fd80f7ba5a11bc504eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 40/47] fix: RemoteSvr.Write counted the message header

---
 remote.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/remote.go b/remote.go
index 6d52ac9..a809040 100644
--- a/remote.go
+++ b/remote.go
@@ -162,7 +162,17 @@ func (r *RemoteSvr) sendMsg(m *Message) *writeReply {
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
 	reply := r.sendMsg(NewMessage(T_DATA, b))
-	return reply.n, reply.err
+	if reply.err == nil {
+		return len(b), nil
+	}
+	// do not count the message header
+	n := reply.n - 6
+	if n < 0 {
+		n = 0
+	} else if n > len(b) {
+		n = len(b)
+	}
+	return n, reply.err
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
-- 
2.43.0


From e5b89b02b7ddad1d7a05c1c69389a4fcd1a76f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:27 +0000
Subject: [PATCH 41/47] fix: the remote terminal state was shared without
 synchronisation

---
 remote.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/remote.go b/remote.go
index a809040..d34ed40 100644
--- a/remote.go
+++ b/remote.go
@@ -31,7 +31,8 @@ type RemoteSvr struct {
 	reciveChan    chan struct{}
 	writeChan     chan *writeCtx
 	conn          net.Conn
-	isTerminal    bool
+	isTerminal    int32
+	funcM         sync.Mutex
 	funcWidthChan func()
 	stopChan      chan struct{}
 
@@ -109,12 +110,14 @@ func (r *RemoteSvr) HandleConfig(cfg *Config) {
 	cfg.FuncExitRaw = r.ExitRawMode
 	cfg.FuncGetWidth = r.GetWidth
 	cfg.FuncOnWidthChanged = func(f func()) {
+		r.funcM.Lock()
 		r.funcWidthChan = f
+		r.funcM.Unlock()
 	}
 }
 
 func (r *RemoteSvr) IsTerminal() bool {
-	return r.isTerminal
+	return atomic.LoadInt32(&r.isTerminal) == 1
 }
 
 func (r *RemoteSvr) checkEOF() error {
@@ -244,9 +247,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 		return
 	}
 	if binary.BigEndian.Uint16(data) == 0 {
-		r.isTerminal = false
+		atomic.StoreInt32(&r.isTerminal, 0)
 	} else {
-		r.isTerminal = true
+		atomic.StoreInt32(&r.isTerminal, 1)
 	}
 }
 
@@ -255,8 +258,11 @@ func (r *RemoteSvr) GotReportWidth(data []byte) {
 		return
 	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
-	if r.funcWidthChan != nil {
-		r.funcWidthChan()
+	r.funcM.Lock()
+	f := r.funcWidthChan
+	r.funcM.Unlock()
+	if f != nil {
+		f()
 	}
 }
 
-- 
2.43.0


From 55b914101525af476e1cc2b87be8983821efb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 42/47] fix: redrawing never ended with an unknown width or a
 prompt as wide as the screen

---
 runebuf.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 6b03946..994784a 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -538,18 +538,12 @@ func (r *RuneBuffer) output() []byte {
 func (r *RuneBuffer) getBackspaceSequence() []byte {
 	var sep = map[int]bool{}
 
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
+	if r.width > 0 {
+		for i := -r.promptLen(); i < runes.WidthAll(r.buf); {
+			i += r.width
 
-		if i == 0 {
-			i -= r.promptLen()
+			sep[i] = true
 		}
-		i += r.width
-
-		sep[i] = true
 	}
 	var buf []byte
 	for i := len(r.buf); i > r.idx; i-- {
-- 
2.43.0


From d289e72001430e5b3175e81cc499daaad55deb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 43/47] fix: RawReader must not write into an empty buffer

---
 rawreader_windows.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawreader_windows.go b/rawreader_windows.go
index 073ef15..6af9e7c 100644
--- a/rawreader_windows.go
+++ b/rawreader_windows.go
@@ -110,6 +110,9 @@ next:
 }
 
 func (r *RawReader) writeEsc(b []byte, char rune) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
+	}
 	b[0] = '\033'
 	n := copy(b[1:], []byte(string(char)))
 	return n + 1, nil
-- 
2.43.0


From b93bb32e4e0f0874a48155bacaf76a2a1d98b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 44/47] fix: the first line saved after the history was reset
 is written to the file

---
 history.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/history.go b/history.go
index e3b2109..7affe18 100644
--- a/history.go
+++ b/history.go
@@ -267,6 +267,11 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	current = runes.Copy(current)
 
+	// the history was just reset, start with the entry being edited
+	if o.history.Back() == nil {
+		o.Push(nil)
+	}
+
 	// if just use last command without modify
 	// just clean lastest history
 	if back := o.history.Back(); back != nil {
-- 
2.43.0


From 4ac0e0610bb099cb62e027fdcdcc8d1ba5f8b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 45/47] fix: let the session goroutine leave its result sends
 once the terminal is closed

---
 operation.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/operation.go b/operation.go
index 22d88ae..7271879 100644
--- a/operation.go
+++ b/operation.go
@@ -130,9 +130,7 @@ func (o *Operation) ioloop() {
 		if r == 0 { // io.EOF
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-				select {
-				case o.errchan <- io.EOF:
-				}
+				o.sendErr(io.EOF)
 				break
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
@@ -274,7 +272,11 @@ func (o *Operation) ioloop() {
 			} else {
 				isUpdateHistory = false
 			}
-			o.outchan <- data
+			select {
+			case o.outchan <- data:
+			case <-o.t.stopChan:
+				return
+			}
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
@@ -309,7 +311,9 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- io.EOF
+			if !o.sendErr(io.EOF) {
+				return
+			}
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
@@ -337,7 +341,9 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- &InterruptError{remain}
+			if !o.sendErr(&InterruptError{remain}) {
+				return
+			}
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -380,6 +386,16 @@ func (o *Operation) ioloop() {
 	}
 }
 
+// sendErr hands err to the reader, it gives up if the terminal is closed.
+func (o *Operation) sendErr(err error) bool {
+	select {
+	case o.errchan <- err:
+		return true
+	case <-o.t.stopChan:
+		return false
+	}
+}
+
 func (o *Operation) Stderr() io.Writer {
 	return &wrapWriter{target: o.GetConfig().Stderr, r: o, t: o.t}
 }
-- 
2.43.0


From 3cd6b4b2f9e0e53aa179459497b5419978d244b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 46/47] fix: do not leak the GetOffset goroutine when the
 terminal is closed

---
 terminal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 11311b7..94fbaf5 100644
--- a/terminal.go
+++ b/terminal.go
@@ -79,7 +79,11 @@ type termSize struct {
 
 func (t *Terminal) GetOffset(f func(offset string)) {
 	go func() {
-		f(<-t.sizeChan)
+		select {
+		case offset := <-t.sizeChan:
+			f(offset)
+		case <-t.stopChan:
+		}
 	}()
 	t.Write([]byte("\033[6n"))
 }
-- 
2.43.0


From 8f20bfdfeeab8e0a1e50de2602ea87017479d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 47/47] fix: Close interrupts the pending read after the
 configuration was replaced

---
 terminal.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/terminal.go b/terminal.go
index 94fbaf5..6cb67d8 100644
--- a/terminal.go
+++ b/terminal.go
@@ -12,6 +12,7 @@ import (
 type Terminal struct {
 	m         sync.Mutex
 	cfg       *Config
+	stdin     io.ReadCloser // ioloop reads from it, even after SetConfig
 	outchan   chan rune
 	closed    int32
 	stopChan  chan struct{}
@@ -29,6 +30,7 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 	}
 	t := &Terminal{
 		cfg:      cfg,
+		stdin:    cfg.Stdin,
 		kickChan: make(chan struct{}, 1),
 		outchan:  make(chan rune),
 		stopChan: make(chan struct{}, 1),
@@ -143,7 +145,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.getStdin())
+	buf := bufio.NewReader(t.stdin)
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -254,6 +256,7 @@ func (t *Terminal) Close() error {
 	if closer, ok := t.cfg.Stdin.(io.Closer); ok {
 		closer.Close()
 	}
+	t.stdin.Close()
 	close(t.stopChan)
 	t.wg.Wait()
 	return t.ExitRawMode()
@@ -266,13 +269,6 @@ func (t *Terminal) GetConfig() *Config {
 	return &cfg
 }
 
-func (t *Terminal) getStdin() io.Reader {
-	t.m.Lock()
-	r := t.cfg.Stdin
-	t.m.Unlock()
-	return r
-}
-
 func (t *Terminal) SetConfig(c *Config) error {
 	if err := c.Init(); err != nil {
 		return err
-- 
2.43.0

