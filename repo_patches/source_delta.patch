From ed5dbe9483729a09718f77fc816025f7bac46a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 01/17] fix: insert fragments without old lines after the line
 at their position

A fragment with an empty old range (-N,0), as produced by diff -U0, adds its
lines after line N of the source, but was applied before line N.
---
 gitdiff/apply.go      |  6 +++++-
 gitdiff/apply_text.go | 21 ++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..bfab172 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -124,7 +124,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		copy(frags, f.TextFragments)
 
 		sort.Slice(frags, func(i, j int) bool {
-			return frags[i].OldPosition < frags[j].OldPosition
+			si, sj := textFragmentStart(frags[i]), textFragmentStart(frags[j])
+			if si != sj {
+				return si < sj
+			}
+			return frags[i].OldLines < frags[j].OldLines
 		})
 
 		// TODO(bkeyes): consider merging overlapping fragments
diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..9ad5fae 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -64,11 +64,7 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 		return applyError(err)
 	}
 
-	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
-	fragStart := f.OldPosition - 1
-	if fragStart < 0 {
-		fragStart = 0
-	}
+	fragStart := textFragmentStart(f)
 	if f.OldLines > math.MaxInt64-fragStart {
 		return applyError(errors.New("fragment bounds overflow"))
 	}
@@ -131,6 +127,21 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 	return nil
 }
 
+// textFragmentStart returns the 0-indexed source line where a fragment starts.
+func textFragmentStart(f *TextFragment) int64 {
+	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
+	start := f.OldPosition
+	if f.OldLines > 0 {
+		start--
+	}
+	// a fragment without old lines adds content after the line at its position,
+	// so the position is already the index of the line following the addition
+	if start < 0 {
+		start = 0
+	}
+	return start
+}
+
 // readPreimage attempts to read lines from the reader in chunks to avoid
 // allocating too much memory if the expected line count is longer than the
 // actual input.
-- 
2.43.0


From 1df80aa56e41609f84967d24a381d7c573a09f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 02/17] fix: reject binary deltas with an incomplete or
 oversized size header

A delta that ended within its source or target size was applied as if the
size were complete, and a size of more than 63 bits wrapped around.
---
 gitdiff/apply_binary.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..7eade05 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // BinaryApplier applies binary changes described in a fragment to source data.
@@ -93,7 +94,10 @@ func (a *BinaryApplier) Close() (err error) {
 }
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
-	srcSize, delta := readBinaryDeltaSize(frag)
+	srcSize, delta, err := readBinaryDeltaSize(frag)
+	if err != nil {
+		return err
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -102,7 +106,10 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// the destination from a small instruction set. First, check the expected
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
-	dstSize, delta := readBinaryDeltaSize(delta)
+	dstSize, delta, err := readBinaryDeltaSize(delta)
+	if err != nil {
+		return err
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +149,22 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
-func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
+// in little-endian order, with 7 bits of the value per byte. It is an error if
+// the data ends before the last byte of the size or the size is too large.
+func readBinaryDeltaSize(d []byte) (size int64, rest []byte, err error) {
 	shift := uint(0)
 	for i, b := range d {
-		size |= int64(b&0x7F) << shift
+		v := int64(b & 0x7F)
+		if v > math.MaxInt64>>shift {
+			return 0, nil, errors.New("corrupt binary delta: size overflow")
+		}
+		size |= v << shift
 		shift += 7
 		if b <= 0x7F {
-			return size, d[i+1:]
+			return size, d[i+1:], nil
 		}
 	}
-	return size, nil
+	return 0, nil, errors.New("corrupt binary delta: incomplete size")
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From eb747b9abddb320a968c2d4e9b91d2806734d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 03/17] fix: reject signs in fragment ranges

Fragment headers with negative or explicitly positive numbers, such as
'@@ --5,1 +-3,1 @@', were accepted and gave fragments with negative positions.
---
 gitdiff/text.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..f739bcd 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -167,13 +167,13 @@ func removeLastNewline(frag *TextFragment) {
 func parseRange(s string) (start int64, end int64, err error) {
 	parts := strings.SplitN(s, ",", 2)
 
-	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
+	if start, err = parseRangeNumber(parts[0]); err != nil {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
 	}
 
 	if len(parts) > 1 {
-		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
+		if end, err = parseRangeNumber(parts[1]); err != nil {
 			nerr := err.(*strconv.NumError)
 			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
 		}
@@ -183,3 +183,9 @@ func parseRange(s string) (start int64, end int64, err error) {
 
 	return
 }
+
+// parseRangeNumber parses a non-negative number without a sign.
+func parseRangeNumber(s string) (int64, error) {
+	n, err := strconv.ParseUint(s, 10, 63)
+	return int64(n), err
+}
-- 
2.43.0


From c827250bb0e382b7c254da35a0882698fd3d42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 04/17] fix: recognize /dev/null in git headers without file
 modes

A created or deleted file formatted without a mode was parsed back as a file
named /dev/null, instead of as a new or deleted file.
---
 gitdiff/file_header.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..1f5fcfc 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -305,6 +305,14 @@ func parseGitHeaderOldName(f *File, line, defaultName string) error {
 		return err
 	}
 	if f.OldName == "" && !f.IsNew {
+		if name == devNull {
+			// a created file without a "new file mode" line
+			if f.IsDelete {
+				return fmt.Errorf("expected filename, but found %s", devNull)
+			}
+			f.IsNew = true
+			return nil
+		}
 		f.OldName = name
 		return nil
 	}
@@ -317,6 +325,14 @@ func parseGitHeaderNewName(f *File, line, defaultName string) error {
 		return err
 	}
 	if f.NewName == "" && !f.IsDelete {
+		if name == devNull {
+			// a deleted file without a "deleted file mode" line
+			if f.IsNew {
+				return fmt.Errorf("expected filename, but found %s", devNull)
+			}
+			f.IsDelete = true
+			return nil
+		}
 		f.NewName = name
 		return nil
 	}
-- 
2.43.0


From 3d409048746c8bcf9b8a6b39f9665000c67bbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 05/17] fix: decode quoted file names with trailing backslashes
 or non-UTF-8 bytes

---
 gitdiff/file_header.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 1f5fcfc..dd6de27 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -452,19 +452,34 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 }
 
 func parseQuotedName(s string) (name string, n int, err error) {
-	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+	var b strings.Builder
+	for n = 1; n < len(s); {
+		switch s[n] {
+		case '"':
+			if b.Len() == 0 {
+				return "", 0, fmt.Errorf("missing name")
+			}
+			return b.String(), n + 1, nil
+		case '\\':
+			r, multibyte, tail, err := strconv.UnquoteChar(s[n:], '"')
+			if err != nil {
+				return "", 0, err
+			}
+			if multibyte {
+				b.WriteRune(r)
+			} else {
+				b.WriteByte(byte(r))
+			}
+			n = len(s) - len(tail)
+		case '\n':
+			return "", 0, strconv.ErrSyntax
+		default:
+			// names are not necessarily UTF-8, so copy all other bytes as they are
+			b.WriteByte(s[n])
 			n++
-			break
 		}
 	}
-	if n == 2 {
-		return "", 0, fmt.Errorf("missing name")
-	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
-		return "", 0, err
-	}
-	return name, n, err
+	return "", 0, strconv.ErrSyntax
 }
 
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
-- 
2.43.0


From 95a2ebc0b5c88af938247abaf296f06fd4f02232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 06/17] fix: reject base85 groups that exceed 32 bits

---
 gitdiff/base85.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..b169e88 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -2,6 +2,7 @@ package gitdiff
 
 import (
 	"fmt"
+	"math"
 )
 
 var (
@@ -26,6 +27,9 @@ func base85Decode(dst, src []byte) error {
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
+			if n == 4 && uint64(v)*85+uint64(b) > math.MaxUint32 {
+				return fmt.Errorf("invalid base85 sequence at index %d: value exceeds 32 bits", i-4)
+			}
 			v = 85*v + uint32(b)
 			n++
 		} else {
-- 
2.43.0


From 1e1da724058e645e9f8c022eae2062d6259f93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 07/17] fix: reject signs in file modes and similarity scores

---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index dd6de27..11dcb32 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -386,7 +386,7 @@ func parseGitHeaderRenameTo(f *File, line, defaultName string) (err error) {
 }
 
 func parseGitHeaderScore(f *File, line, defaultName string) error {
-	score, err := strconv.ParseInt(strings.TrimSuffix(line, "%"), 10, 32)
+	score, err := strconv.ParseUint(strings.TrimSuffix(line, "%"), 10, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
@@ -419,7 +419,7 @@ func parseGitHeaderIndex(f *File, line, defaultName string) error {
 }
 
 func parseMode(s string) (os.FileMode, error) {
-	mode, err := strconv.ParseInt(s, 8, 32)
+	mode, err := strconv.ParseUint(s, 8, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
-- 
2.43.0


From fd8c465cfc883a6951e49a205e8c849a4fce1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 08/17] fix: accept sources that return io.EOF with a full
 final read

---
 gitdiff/apply_binary.go | 2 +-
 gitdiff/io.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 7eade05..3791aca 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -223,7 +223,7 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	if n, err := src.ReadAt(b, offset); err != nil && !(err == io.EOF && n == len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..cc82449 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,7 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	if n, err := r.r.ReadAt(b, offset); err != nil && !(err == io.EOF && n == len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From 5347cd0531055734eef6459f546dab073da01b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 09/17] fix: report read errors that occur after a disconnected
 fragment header

---
 gitdiff/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..f8438fb 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error
 	lineno int64
 	lines  [3]string
 }
@@ -91,8 +92,12 @@ func newParser(r io.Reader) *parser {
 }
 
 // Next advances the parser by one line. It returns any error encountered while
-// reading the line, including io.EOF when the end of stream is reached.
+// reading the line, including io.EOF when the end of stream is reached. After
+// an error, all further calls return the same error.
 func (p *parser) Next() error {
+	if p.err != nil {
+		return p.err
+	}
 	if p.eof {
 		return io.EOF
 	}
@@ -101,6 +106,7 @@ func (p *parser) Next() error {
 		// on first call to next, need to shift in all lines
 		for i := 0; i < len(p.lines)-1; i++ {
 			if err := p.shiftLines(); err != nil && err != io.EOF {
+				p.err = err
 				return err
 			}
 		}
@@ -108,6 +114,7 @@ func (p *parser) Next() error {
 
 	err := p.shiftLines()
 	if err != nil && err != io.EOF {
+		p.err = err
 		return err
 	}
 
-- 
2.43.0


From c2145516447a2a2ac029ec804107f2ae32e6ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 10/17] fix: report short writes when applying text fragments

---
 gitdiff/apply_text.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 9ad5fae..beb6300 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -92,7 +92,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// copy leading data before the fragment starts
 	for i, line := range preimage[:fragStart-start] {
-		if _, err := a.dst.Write(line); err != nil {
+		n, err := a.dst.Write(line)
+		if err == nil && n != len(line) {
+			err = io.ErrShortWrite
+		}
+		if err != nil {
 			a.nextLine = start + int64(i)
 			return applyError(err, lineNum(a.nextLine))
 		}
@@ -184,7 +188,11 @@ func applyTextLine(dst io.Writer, line Line, preimage [][]byte, i int64) (err er
 		return &Conflict{"fragment line does not match src line"}
 	}
 	if line.New() {
-		_, err = io.WriteString(dst, line.Line)
+		var n int
+		n, err = io.WriteString(dst, line.Line)
+		if err == nil && n != len(line.Line) {
+			err = io.ErrShortWrite
+		}
 	}
 	return err
 }
-- 
2.43.0


From 5d765caba676a90a3c0c4de9bd4eb407fc4d6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 11/17] fix: return an ApplyError when copying unchanged data
 fails

---
 gitdiff/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index bfab172..f1e4693 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -117,7 +117,7 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
 			return err
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
 		frags := make([]*TextFragment, len(f.TextFragments))
@@ -141,11 +141,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 				return applyError(err, fragNum(i))
 			}
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	default:
 		// nothing to apply, just copy all the data
 		_, err := copyFrom(dst, src, 0)
-		return err
+		return applyError(err)
 	}
 }
-- 
2.43.0


From 7cda6c5b1853574e813a96d0df5ab795c7d44244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 12/17] fix: report the position in the file of fragments that
 fail to apply

---
 gitdiff/apply.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index f1e4693..1ac62bb 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -120,15 +120,23 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
-		frags := make([]*TextFragment, len(f.TextFragments))
-		copy(frags, f.TextFragments)
+		// sort indexes instead of fragments so that errors can report the
+		// position of the fragment in the file
+		order := make([]int, len(f.TextFragments))
+		for i, frag := range f.TextFragments {
+			if frag == nil {
+				return applyError(errors.New("nil fragment"), fragNum(i))
+			}
+			order[i] = i
+		}
 
-		sort.Slice(frags, func(i, j int) bool {
-			si, sj := textFragmentStart(frags[i]), textFragmentStart(frags[j])
+		sort.Slice(order, func(i, j int) bool {
+			fi, fj := f.TextFragments[order[i]], f.TextFragments[order[j]]
+			si, sj := textFragmentStart(fi), textFragmentStart(fj)
 			if si != sj {
 				return si < sj
 			}
-			return frags[i].OldLines < frags[j].OldLines
+			return fi.OldLines < fj.OldLines
 		})
 
 		// TODO(bkeyes): consider merging overlapping fragments
@@ -136,8 +144,8 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		// possible to precompute the result of applying them in order
 
 		applier := NewTextApplier(dst, src, opts...)
-		for i, frag := range frags {
-			if err := applier.ApplyFragment(frag); err != nil {
+		for _, i := range order {
+			if err := applier.ApplyFragment(f.TextFragments[i]); err != nil {
 				return applyError(err, fragNum(i))
 			}
 		}
-- 
2.43.0


From 11992ff8b75644a148486828b01413f44d7a36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 13/17] fix: stop applying a binary delta after a short write

---
 gitdiff/apply_binary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 3791aca..872f714 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -255,6 +255,9 @@ func (w *limitWriter) Write(p []byte) (n int, err error) {
 		return 0, w.limitErr
 	}
 	n, err = w.w.Write(p)
+	if err == nil && n != len(p) {
+		err = io.ErrShortWrite
+	}
 	w.limit -= int64(n)
 	return
 }
-- 
2.43.0


From 0020bcba98661d30346a9a8ca4f7ec35b53e598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 14/17] fix: do not report source errors that wrap io.EOF as
 conflicts

Readers signal the end of the source with io.EOF itself. An error that only
wraps it, for example a failed HTTP request, is a failure of the source.
---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index beb6300..f012e98 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -172,7 +172,7 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				err = &Conflict{"src has fewer lines than required by fragment"}
 			}
 			return nil, applyError(err, lineNum(start+int64(n)))
-- 
2.43.0


From ce1024107990b972de83e730c18a7390e2ed30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 15/17] fix: name the line of a bad file name in a traditional
 header

The parser has already advanced past both name lines when it parses the
names, so the error named lines of the fragment instead.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 11dcb32..375a047 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -135,12 +135,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0


From 575246d8e33f5bf7fc626abcb6bf850baeaf27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 16/17] fix: name the fragment header when its line counts are
 wrong

The distance to the header was taken from the counts, which is too small
when lines are both deleted and added or there is a no-newline marker.
---
 gitdiff/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index f739bcd..e120995 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -79,6 +79,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	hdr := p.lineno - 1
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -132,8 +133,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
-		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
+		return p.Errorf(hdr-p.lineno, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
 		return p.Errorf(0, "fragment contains no changes")
-- 
2.43.0


From 1db313b6bf48c92a784d0bb3057cdd10aacf79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 17/17] fix: accept line sources that return io.EOF with a full
 final read

---
 gitdiff/apply_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index f012e98..db10a11 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -169,6 +169,9 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		preimage = append(preimage, make([][]byte, readSize)...)
 
 		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
+		if err == io.EOF && int64(n) == readSize {
+			err = nil // all of the lines exist, but nothing follows them
+		}
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-- 
2.43.0

