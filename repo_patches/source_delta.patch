From d2353cebf072a67a874b42c76ff68c142aa7c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 01/21] fix: keep point and mark inside the buffer

Point and mark could leave the range from 1 to the buffer size plus 1 (a
mark set beyond the end, a mark left behind by a deletion, a negative
backward-char), after which word and line commands panicked.
---
 edlisp/builtin_backward_kill_word.go   |  3 +--
 edlisp/builtin_delete_backward_char.go |  3 +--
 edlisp/builtin_delete_char.go          |  3 +--
 edlisp/builtin_delete_line.go          |  3 +--
 edlisp/builtin_delete_region.go        |  3 +--
 edlisp/builtin_kill_line.go            |  3 +--
 edlisp/builtin_kill_word.go            |  3 +--
 edlisp/builtin_replace_match.go        |  3 +--
 edlisp/builtin_replace_region.go       |  3 +--
 edlisp/eval.go                         | 21 +++++++++++++++++----
 10 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..3886c7a 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -46,8 +46,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		endIndex = len(content)
 	}
 	newContent := content[:pos] + content[endIndex:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	buffer.SetPoint(pos + 1) // Convert back to 1-based
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..6077d65 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -36,8 +36,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[endPos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Update point to the new position
 	buffer.SetPoint(startPos + 1)
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..25d7f8a 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -37,8 +37,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 
 	// Delete characters starting at current position
 	newContent := content[:startPos] + content[endPos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..619310c 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -43,8 +43,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:lineStart] + content[lineEnd:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	buffer.SetPoint(lineStart + 1) // Convert back to 1-based
 
diff --git a/edlisp/builtin_delete_region.go b/edlisp/builtin_delete_region.go
index b9a17ed..707ed51 100644
--- a/edlisp/builtin_delete_region.go
+++ b/edlisp/builtin_delete_region.go
@@ -35,8 +35,7 @@ func BuiltinDeleteRegion(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Set point to start of deleted region
 	buffer.SetPoint(start + 1)
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..4bf79da 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -56,8 +56,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[lineEnd:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..273ba93 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -39,8 +39,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:startPos] + content[pos:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	return NewString(""), nil
 }
diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..0c0f9fb 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -35,8 +35,7 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + str.Value + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Update point to end of replacement
 	buffer.SetPoint(start + len(str.Value) + 1)
diff --git a/edlisp/builtin_replace_region.go b/edlisp/builtin_replace_region.go
index b0afda4..129b1da 100644
--- a/edlisp/builtin_replace_region.go
+++ b/edlisp/builtin_replace_region.go
@@ -40,8 +40,7 @@ func BuiltinReplaceRegion(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	newContent := content[:start] + str.Value + content[end:]
-	buffer.content.Reset()
-	buffer.content.WriteString(newContent)
+	buffer.setContent(newContent)
 
 	// Set point to end of replacement
 	buffer.SetPoint(start + len(str.Value) + 1)
diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..2a9b52d 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -58,14 +58,27 @@ func (b *Buffer) Mark() int {
 	return b.mark
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clamped to the bounds of the buffer.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clampPosition(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, clamped to the bounds of the buffer.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clampPosition(pos)
+}
+
+// clampPosition returns the valid buffer position closest to pos.
+func (b *Buffer) clampPosition(pos int) int {
+	return max(1, min(pos, b.content.Len()+1))
+}
+
+// setContent replaces the buffer content, keeping point and mark within bounds.
+func (b *Buffer) setContent(content string) {
+	b.content.Reset()
+	b.content.WriteString(content)
+	b.SetPoint(b.point)
+	b.SetMark(b.mark)
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From 80eb349f3c4fab73e00efff8a21d95459e784a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 02/21] fix: clamp counts and positions too large for an int

goto-char 1e19 went to the beginning of the buffer instead of its end, and
delete-char with a huge count crashed.
---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  2 +-
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  2 +-
 edlisp/builtin_goto_line.go            |  2 +-
 edlisp/builtin_kill_line.go            |  2 +-
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  2 +-
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/number.go                       | 20 ++++++++++++++++++--
 17 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..534d084 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 3886c7a..b329ac3 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..836caa3 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..c97904b 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := args[0].(*Number).Int()
+	end := args[1].(*Number).Int()
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index 6077d65..136ccfe 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 25d7f8a..8b278f6 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index 619310c..21dda1d 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..96086b1 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..851da0e 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..935d934 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -19,7 +19,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := num.Int()
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e2183b9 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -19,7 +19,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := num.Int()
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 4bf79da..353d402 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index 273ba93..a43cabc 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..5b27a17 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..92d41dc 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = args[0].(*Number).Int()
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..1b06237 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := args[1].(*Number).Int()
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = args[2].(*Number).Int()
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/number.go b/edlisp/number.go
index 5c441bf..655266f 100644
--- a/edlisp/number.go
+++ b/edlisp/number.go
@@ -1,6 +1,9 @@
 package edlisp
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // NumberKind represents the kind for numeric values.
 type NumberKind struct{}
@@ -41,8 +44,21 @@ func (num *Number) String() string {
 	return fmt.Sprintf("%g", num.Value)
 }
 
-// Int returns the integer representation of the number.
+// maxInt is the magnitude beyond which Int saturates. It is larger than any
+// buffer, and small enough that adding a position to it cannot overflow.
+const maxInt = math.MaxInt32
+
+// Int returns the integer representation of the number. Values too large to be
+// a count or a position saturate instead of wrapping around.
 func (num *Number) Int() int {
+	switch {
+	case num.Value != num.Value: // NaN
+		return 0
+	case num.Value >= maxInt:
+		return maxInt
+	case num.Value <= -maxInt:
+		return -maxInt
+	}
 	return int(num.Value)
 }
 
-- 
2.43.0


From 4559a19932270b1d6c218b100212c93aca8b7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 03/21] fix: delete nothing when the count is below one

delete-char with a negative count duplicated text, delete-line 0 deleted the
line up to point and backward-kill-word 0 deleted the character at point.
---
 edlisp/builtin_backward_kill_word.go | 4 ++++
 edlisp/builtin_delete_char.go        | 2 +-
 edlisp/builtin_delete_line.go        | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index b329ac3..b2dd3f4 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -23,6 +23,10 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		count = args[0].(*Number).Int()
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	startPos := buffer.Point() - 1 // Convert to 0-based
 	pos := startPos
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 8b278f6..f592ba1 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -24,7 +24,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() // 1-based position
 
-	if pos < 1 || pos > len(content) {
+	if count < 1 || pos < 1 || pos > len(content) {
 		return NewString(""), nil
 	}
 
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index 21dda1d..f5e29d4 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -22,6 +22,10 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		count = args[0].(*Number).Int()
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-- 
2.43.0


From 9bffc437a2f13c7b67684e695b9e9f89d963bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 04/21] fix: stop line commands at the end of the buffer

delete-line, mark-line and kill-line kept looping up to their count after
reaching the end, so that a huge count hung.
---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index f5e29d4..5ac1654 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -37,7 +37,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 353d402..f15f771 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 5b27a17..46a4fba 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From c25f093c66890c79d4a11cfd7fe2f900184507a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 05/21] fix: beginning-of-line at the end of the buffer

After a final newline it moved to the beginning of the previous line, and in
an empty buffer it moved to position 0.
---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 6b008d75aea0fe9c6708f2fd070037da2535f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 06/21] fix: capitalize strings that start with a multi-byte
 character

The first byte was taken for the first character, which corrupted it.
---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From 67040f450cbd81a0182683b18be43894fa2182f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 07/21] fix: looking-back considers every match ending at point

Only the leftmost match in the text before point was tried, so a pattern
that also matches earlier in the buffer was never found.
---
 edlisp/builtin_looking_back.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..2e00fb9 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -33,6 +33,9 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 
 	// Try to compile as regular expression
 	re, err := regexp.Compile(pattern.Value)
+	if err == nil {
+		re, err = compileMatchAtEnd(pattern.Value)
+	}
 	if err != nil {
 		// If not a valid regex, treat as literal string
 		if pos >= len(pattern.Value) && strings.HasSuffix(content[:pos], pattern.Value) {
@@ -42,15 +45,24 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	// Use regular expression matching on text before point
-	beforeText := content[:pos]
-	match := re.FindStringIndex(beforeText)
-	if match != nil && match[1] == len(beforeText) {
+	if re.MatchString(content[:pos]) {
 		return NewSymbol("t"), nil
 	}
 
 	return NewSymbol("nil"), nil
 }
 
+// compileMatchAtEnd compiles a valid pattern so that it matches only at the end
+// of the text.
+func compileMatchAtEnd(pattern string) (*regexp.Regexp, error) {
+	re, err := regexp.Compile(`(?:` + pattern + `)\z`)
+	if err != nil {
+		// The pattern ends in an open \Q quotation
+		re, err = regexp.Compile(`(?:` + pattern + `\E)\z`)
+	}
+	return re, err
+}
+
 func init() {
 	RegisterDocumentation(FunctionDoc{
 		Name:        "looking-back",
-- 
2.43.0


From f635ec414b826131445d901d2aa59172c13a7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 08/21] fix: reject input after an S-expression instead of
 dropping it

Everything after the first S-expression of a line was silently ignored, so
(insert "a") (insert "b") inserted only a.
---
 edlisp/parser/linebased.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..ab37306 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -114,8 +114,14 @@ func parseSExpression(line string) (edlisp.Value, error) {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
+	expr, next, err := parseTokens(tokens, 0)
+	if err != nil {
+		return nil, err
+	}
+	if next < len(tokens) {
+		return nil, fmt.Errorf("unexpected %q after the end of the expression", tokens[next])
+	}
+	return expr, nil
 }
 
 // parseShellLike parses a shell-like command line into a list.
-- 
2.43.0


From 1b625007859c0e6e1532874a1ed714c1a0a08da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 09/21] fix: accept script lines longer than 64 KiB

Such lines were rejected in shell and S-expression scripts, and accepted in
the equivalent JSON script.
---
 edlisp/parser/linebased.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index ab37306..4a8008b 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -20,6 +21,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // Lines can be of any length
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
-- 
2.43.0


From 5b4e0fd24dad21f7bbfd0f58ab02041e1035607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 10/21] fix: kill-line at the end of a line leaves the next
 line alone

With point at the newline it deleted the text of the following line.
---
 edlisp/builtin_kill_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index f15f771..01caea8 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -33,6 +33,10 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 
 	if count == 1 {
 		// For single line kill, preserve cursor character and kill from after cursor
+		if content[pos] == '\n' {
+			// Nothing is left of the current line
+			return NewString(""), nil
+		}
 		startPos = pos + 1
 		lineEnd = startPos
 		// Find end of current line
-- 
2.43.0


From 8fe24fdd685a455937df35da0e1486de7c33abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 11/21] fix: replace-region inserts its text when the region is
 empty

The text was dropped: mark-whole-buffer; replace-region "x" did nothing to an
empty buffer.
---
 edlisp/builtin_replace_region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edlisp/builtin_replace_region.go b/edlisp/builtin_replace_region.go
index 129b1da..c18bfdf 100644
--- a/edlisp/builtin_replace_region.go
+++ b/edlisp/builtin_replace_region.go
@@ -35,7 +35,7 @@ func BuiltinReplaceRegion(args []Value, buffer *Buffer) (Value, error) {
 	if end > len(content) {
 		end = len(content)
 	}
-	if start >= end {
+	if start > end {
 		return NewString(""), nil
 	}
 
-- 
2.43.0


From 00759decd1a04e4ed2ca4dee34b6978d6f330d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 12/21] fix: mark-word between words and at the end of the
 buffer

Between words it marked nothing instead of the next word. Right after the last
word of the buffer it left a stale mark, so that the documented
search-forward; mark-word; replace-region replaced the whole buffer.
---
 edlisp/builtin_mark_word.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_mark_word.go b/edlisp/builtin_mark_word.go
index cc68f16..f6fd0d9 100644
--- a/edlisp/builtin_mark_word.go
+++ b/edlisp/builtin_mark_word.go
@@ -17,10 +17,6 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 || pos >= len(content) {
-		return NewString(""), nil
-	}
-
 	// Find the start of the word (move backward to find non-letter)
 	start := pos
 	for start > 0 && isLetter(content[start-1]) {
@@ -33,6 +29,20 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 		end++
 	}
 
+	// Between words: take the next word
+	if start == end {
+		for end < len(content) && !isLetter(content[end]) {
+			end++
+		}
+		if end == len(content) {
+			end = pos // No word left: mark nothing
+		}
+		start = end
+		for end < len(content) && isLetter(content[end]) {
+			end++
+		}
+	}
+
 	// Set mark at beginning of word, point at end
 	buffer.SetMark(start + 1) // Convert back to 1-based
 	buffer.SetPoint(end + 1)  // Convert back to 1-based
-- 
2.43.0


From a51265d0bcc60b23f175f8d69fcd344d183f3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 13/21] fix: list function categories in a stable order

The verbose listings iterated over a map, so their order changed on each run.
---
 commands/doc.go     | 10 +++++++++-
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..4b11193 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,7 +153,14 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		categories := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			categories = append(categories, catName)
+		}
+		sort.Strings(categories)
+
+		for _, catName := range categories {
+			catDocs := categoryMap[catName]
 			fmt.Printf("## %s\n\n", strings.Title(catName))
 			for _, doc := range catDocs {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 13e7f0f0a0f4011d961077fad30b3d43cbc3a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 14/21] fix: take each -e expression verbatim

The value was read as CSV: a quoted string was a syntax error, and a comma
split the expression.
---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From c6211f1b995c7a0256004cf3501e2dc8de663888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 15/21] fix: accept the documented forms of JSON scripts

The README gives a JSON script as one command, as a sequence of commands or as
an array of commands; edit took only the last, parse only the first two, so
that the output of parse --output-format json could not be executed.
---
 commands/edit.go      |  2 +-
 commands/parse.go     |  2 +-
 edlisp/parser/json.go | 41 +++++++++++++++++++++++++++++++++++++++++
 texted.go             |  3 ++-
 4 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index fb5153b..6d3a414 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -339,7 +339,7 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 		case "shell", "sexp":
 			program, err = parser.ParseString(expr)
 		case "json":
-			program, err = parser.ParseJSONString(expr)
+			program, err = parser.ParseJSONScript(strings.NewReader(expr))
 		default:
 			return fmt.Errorf("unsupported script format: %s", args.scriptFormat)
 		}
diff --git a/commands/parse.go b/commands/parse.go
index b3a2f41..b31701a 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -83,7 +83,7 @@ func parseInput(r io.Reader, format string) ([]edlisp.Value, error) {
 	case "sexp":
 		return parser.ParseReader(r)
 	case "json":
-		return parser.ParseJSONReader(r)
+		return parser.ParseJSONScript(r)
 	default:
 		return nil, fmt.Errorf("unsupported input format: %s", format)
 	}
diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..0cc4f81 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -67,6 +67,47 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	return expressions, nil
 }
 
+// ParseJSONScript parses a script of JSON commands. A command is an array that
+// starts with the name of a function; the commands follow one another, or are
+// collected in an enclosing array.
+func ParseJSONScript(r io.Reader) ([]edlisp.Value, error) {
+	decoder := json.NewDecoder(r)
+	var expressions []edlisp.Value
+
+	for {
+		var rawValue interface{}
+		err := decoder.Decode(&rawValue)
+		if err == io.EOF {
+			return expressions, nil
+		}
+		if err != nil {
+			return nil, fmt.Errorf("JSON decode error: %w", err)
+		}
+
+		commands, ok := rawValue.([]interface{})
+		if !ok {
+			return nil, fmt.Errorf("texted JSON must consist of arrays, got %T", rawValue)
+		}
+		if len(commands) > 0 {
+			if _, isCommand := commands[0].(string); isCommand {
+				commands = []interface{}{rawValue}
+			}
+		}
+
+		for _, command := range commands {
+			if err := ValidateJSONFormat(command); err != nil {
+				return nil, fmt.Errorf("invalid command: %w", err)
+			}
+
+			expr, err := convertJSONValue(command)
+			if err != nil {
+				return nil, err
+			}
+			expressions = append(expressions, expr)
+		}
+	}
+}
+
 // convertJSONValue converts a Go interface{} value from JSON into an edlisp.Value.
 func convertJSONValue(value interface{}) (edlisp.Value, error) {
 	switch v := value.(type) {
diff --git a/texted.go b/texted.go
index d393631..fd1d678 100644
--- a/texted.go
+++ b/texted.go
@@ -3,6 +3,7 @@ package texted
 import (
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 	"github.com/dhamidi/texted/edlisp/parser"
@@ -48,7 +49,7 @@ func ExecuteScriptWithFormat(input, script, format string) (string, error) {
 	case "shell", "sexp":
 		program, err = parser.ParseString(script)
 	case "json":
-		program, err = parser.ParseJSONString(script)
+		program, err = parser.ParseJSONScript(strings.NewReader(script))
 	default:
 		return "", fmt.Errorf("unsupported script format: %s", format)
 	}
-- 
2.43.0


From 79c64d03730596374bf4d68b0b5196c4d73b06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 16/21] fix: accept JSON scripts in the MCP tools

Their descriptions offer the three syntaxes, but a JSON script was read as
shell-like syntax and always failed.
---
 edlisp/parser/linebased.go | 9 +++++++++
 texted.go                  | 2 +-
 tools/texted_eval.go       | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 4a8008b..5995e3a 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -58,6 +58,15 @@ func ParseString(s string) ([]edlisp.Value, error) {
 	return ParseReader(strings.NewReader(s))
 }
 
+// ParseScript parses a script in any of the three syntaxes. A script that starts
+// with a bracket is JSON, as no function name starts with one.
+func ParseScript(s string) ([]edlisp.Value, error) {
+	if strings.HasPrefix(strings.TrimSpace(s), "[") {
+		return ParseJSONScript(strings.NewReader(s))
+	}
+	return ParseString(s)
+}
+
 // ParseSexp parses pure S-expression format where simple values are not wrapped in lists.
 // For example, "5" returns [Number(5)], not [List(Number(5))].
 func ParseSexp(s string) ([]edlisp.Value, error) {
diff --git a/texted.go b/texted.go
index fd1d678..f46aac3 100644
--- a/texted.go
+++ b/texted.go
@@ -20,7 +20,7 @@ type EditResult struct {
 func ExecuteScript(input, script string) (string, error) {
 	buf := edlisp.NewBuffer(input)
 
-	program, err := parser.ParseString(script)
+	program, err := parser.ParseScript(script)
 	if err != nil {
 		return "", fmt.Errorf("parsing script: %w", err)
 	}
diff --git a/tools/texted_eval.go b/tools/texted_eval.go
index 7f41913..51394a0 100644
--- a/tools/texted_eval.go
+++ b/tools/texted_eval.go
@@ -66,7 +66,7 @@ func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.C
 	// Expression mode - need to get the return value
 	buf := edlisp.NewBuffer(input)
 
-	program, err := parser.ParseString(script)
+	program, err := parser.ParseScript(script)
 	if err != nil {
 		return mcp.NewToolResultError(fmt.Sprintf("parsing script: %v", err)), nil
 	}
-- 
2.43.0


From 737b6d17535664f4b0dd6ac61cfe8d9ccff9588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 17/21] fix: limit how deeply lists can be nested in a script

---
 edlisp/parser/linebased.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 5995e3a..4f87fc6 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -125,7 +125,7 @@ func parseSExpression(line string) (edlisp.Value, error) {
 		return nil, err
 	}
 
-	expr, next, err := parseTokens(tokens, 0)
+	expr, next, err := parseTokens(tokens, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -150,7 +150,7 @@ func parseShellLike(line string) (edlisp.Value, error) {
 
 		// If we encounter an opening parenthesis, parse as S-expression
 		if token == "(" {
-			expr, newPos, err := parseTokens(tokens, pos)
+			expr, newPos, err := parseTokens(tokens, pos, 0)
 			if err != nil {
 				return nil, err
 			}
@@ -228,8 +228,11 @@ func tokenize(line string) ([]string, error) {
 	return tokens, nil
 }
 
+// maxDepth is how deeply lists can be nested, the same as in JSON scripts.
+const maxDepth = 10000
+
 // parseTokens recursively parses tokens into S-expressions.
-func parseTokens(tokens []string, start int) (edlisp.Value, int, error) {
+func parseTokens(tokens []string, start, depth int) (edlisp.Value, int, error) {
 	if start >= len(tokens) {
 		return nil, start, fmt.Errorf("unexpected end of input")
 	}
@@ -237,7 +240,10 @@ func parseTokens(tokens []string, start int) (edlisp.Value, int, error) {
 	token := tokens[start]
 
 	if token == "(" {
-		return parseList(tokens, start+1)
+		if depth >= maxDepth {
+			return nil, start, fmt.Errorf("lists are nested too deeply")
+		}
+		return parseList(tokens, start+1, depth+1)
 	}
 
 	if token == ")" {
@@ -249,12 +255,12 @@ func parseTokens(tokens []string, start int) (edlisp.Value, int, error) {
 }
 
 // parseList parses a list starting after the opening parenthesis.
-func parseList(tokens []string, start int) (edlisp.Value, int, error) {
+func parseList(tokens []string, start, depth int) (edlisp.Value, int, error) {
 	var elements []edlisp.Value
 	pos := start
 
 	for pos < len(tokens) && tokens[pos] != ")" {
-		element, newPos, err := parseTokens(tokens, pos)
+		element, newPos, err := parseTokens(tokens, pos, depth)
 		if err != nil {
 			return nil, pos, err
 		}
-- 
2.43.0


From 806c85aeb5f2bb0e52f19a3996c58d18d2419ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 18/21] fix: refuse to write strings as JSON that JSON cannot
 express

---
 edlisp/writer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/writer/json.go b/edlisp/writer/json.go
index 017efa1..fb57915 100644
--- a/edlisp/writer/json.go
+++ b/edlisp/writer/json.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"unicode/utf8"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -52,6 +53,9 @@ func (w *JSONWriter) valueToJSON(value edlisp.Value) (interface{}, error) {
 	case *edlisp.Symbol:
 		return v.Name, nil
 	case *edlisp.String:
+		if !utf8.ValidString(v.Value) {
+			return nil, fmt.Errorf("string %v cannot be written as JSON: not valid UTF-8", v)
+		}
 		return v.Value, nil
 	case *edlisp.Number:
 		return v.Value, nil
-- 
2.43.0


From 50c37a031d4047d83befd7bc369a2dda3ebf4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 19/21] fix: parse prints nothing when a script cannot be
 converted

---
 commands/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/commands/parse.go b/commands/parse.go
index b31701a..5d60ea1 100644
--- a/commands/parse.go
+++ b/commands/parse.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -95,5 +96,12 @@ func writeOutput(w io.Writer, expressions []edlisp.Value, format string) error {
 	if err != nil {
 		return fmt.Errorf("unsupported output format: %s", format)
 	}
-	return writerInstance.Write(w, expressions)
+
+	// Write nothing if the format cannot express all of the script
+	var output bytes.Buffer
+	if err := writerInstance.Write(&output, expressions); err != nil {
+		return err
+	}
+	_, err = output.WriteTo(w)
+	return err
 }
-- 
2.43.0


From b7855cb925aec442e84487d853c02a96ffab2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 20/21] fix: refuse to write programs the target syntax cannot
 express

---
 edlisp/writer/json.go   |  9 ++++++++-
 edlisp/writer/sexp.go   |  3 +++
 edlisp/writer/shell.go  |  3 +++
 edlisp/writer/writer.go | 20 ++++++++++++++++++++
 4 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/edlisp/writer/json.go b/edlisp/writer/json.go
index fb57915..a134313 100644
--- a/edlisp/writer/json.go
+++ b/edlisp/writer/json.go
@@ -42,7 +42,11 @@ func (w *JSONWriter) valueToJSON(value edlisp.Value) (interface{}, error) {
 	switch v := value.(type) {
 	case *edlisp.List:
 		jsonArray := make([]interface{}, 0, len(v.Elements))
-		for _, element := range v.Elements {
+		for i, element := range v.Elements {
+			// The first string of an array is a symbol, every other one a string
+			if _, isSymbol := element.(*edlisp.Symbol); isSymbol != (i == 0) {
+				return nil, fmt.Errorf("list %v cannot be written as JSON: it must start with a symbol and contain no other", v)
+			}
 			jsonValue, err := w.valueToJSON(element)
 			if err != nil {
 				return nil, err
@@ -51,6 +55,9 @@ func (w *JSONWriter) valueToJSON(value edlisp.Value) (interface{}, error) {
 		}
 		return jsonArray, nil
 	case *edlisp.Symbol:
+		if !utf8.ValidString(v.Name) {
+			return nil, fmt.Errorf("symbol %q cannot be written as JSON: not valid UTF-8", v.Name)
+		}
 		return v.Name, nil
 	case *edlisp.String:
 		if !utf8.ValidString(v.Value) {
diff --git a/edlisp/writer/sexp.go b/edlisp/writer/sexp.go
index feaf2e2..b574214 100644
--- a/edlisp/writer/sexp.go
+++ b/edlisp/writer/sexp.go
@@ -25,6 +25,9 @@ func (w *SExpWriter) Write(writer io.Writer, expressions []edlisp.Value) error {
 
 // WriteValue writes a single value to the writer in S-expression format
 func (w *SExpWriter) WriteValue(writer io.Writer, value edlisp.Value) error {
+	if err := checkSymbols(value); err != nil {
+		return err
+	}
 	_, err := fmt.Fprint(writer, value)
 	return err
 }
diff --git a/edlisp/writer/shell.go b/edlisp/writer/shell.go
index 0b6bb05..176f925 100644
--- a/edlisp/writer/shell.go
+++ b/edlisp/writer/shell.go
@@ -62,6 +62,9 @@ func (w *ShellWriter) valueToShellString(value edlisp.Value) (string, error) {
 func (w *ShellWriter) valueToToken(value edlisp.Value) (string, error) {
 	switch v := value.(type) {
 	case *edlisp.Symbol:
+		if err := checkSymbols(v); err != nil {
+			return "", err
+		}
 		return v.Name, nil
 	case *edlisp.String:
 		return strconv.Quote(v.Value), nil
diff --git a/edlisp/writer/writer.go b/edlisp/writer/writer.go
index 2fecb37..468cb9b 100644
--- a/edlisp/writer/writer.go
+++ b/edlisp/writer/writer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 
 	"github.com/dhamidi/texted/edlisp"
+	"github.com/dhamidi/texted/edlisp/parser"
 )
 
 // Writer defines the interface for format writers
@@ -35,3 +36,22 @@ func NewWriter(format Format) (Writer, error) {
 		return nil, fmt.Errorf("unsupported format: %s", format)
 	}
 }
+
+// checkSymbols reports a symbol in value whose name does not read back as that
+// symbol, such as one from a JSON script that contains spaces.
+func checkSymbols(value edlisp.Value) error {
+	switch v := value.(type) {
+	case *edlisp.List:
+		for _, element := range v.Elements {
+			if err := checkSymbols(element); err != nil {
+				return err
+			}
+		}
+	case *edlisp.Symbol:
+		expressions, err := parser.ParseString("(" + v.Name + ")")
+		if err != nil || len(expressions) != 1 || !edlisp.Equal(expressions[0], edlisp.NewList(v)) {
+			return fmt.Errorf("symbol %q can only be written as JSON", v.Name)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 680970a6b5c3c9c1da40296eb933fc835b64813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 21/21] fix: reject null as a JSON script

---
 edlisp/parser/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 0cc4f81..059ecdb 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -49,6 +49,9 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
+	if rawValues == nil {
+		return nil, fmt.Errorf("texted JSON must be an array, got null")
+	}
 
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
-- 
2.43.0

