package props

import (
	"io"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// useFile calls everything a user would call on a parsed file. Panics are
// violations of their own.
func useFile(f *gitdiff.File, src []byte) {
	if f == nil {
		sym.Assert(false, "Parse returns a nil file")
		return
	}
	text := f.String()
	sym.Assert(len(text) > 0, "a file has no text")
	for _, frag := range f.TextFragments {
		_ = frag.Validate()
		_ = frag.String()
		_ = frag.Header()
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b != nil {
			_ = b.String()
			if b.Size < 1<<16 {
				_, _ = io.ReadAll(b.Data())
			}
		}
	}
	var dst sink
	for _, frag := range f.TextFragments {
		// positions in between only take longer
		sym.Assume(sym.Or(frag.OldPosition < 7, frag.OldPosition > 5000))
	}
	_ = gitdiff.Apply(&dst, &memAt{src}, f, gitdiff.WithMaxBinaryFragmentBytes(1<<16))
}

func parseAndUse(text string) {
	files, _, _ := gitdiff.Parse(strings.NewReader(text))
	if len(files) > 0 {
		sym.Reach("file")
	}
	for _, f := range files {
		useFile(f, []byte("a\nb"))
	}
}

// C16_parse_bytes Parse on 0..5 (7) arbitrary bytes.
func C16_parse_bytes() {
	parseAndUse(sym.String("b", sym.Choose("len", pick(6, 8))))
}

var parseContexts = [][2]string{
	{"diff --git ", "\n--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"},
	{"diff --git a/", " b/x\n"},
	{"diff --git \"", "\n"},
	{"diff --git a/x b/x\n", "\n@@ -1 +1 @@\n-a\n+b\n"},
	{"diff --git a/x b/x\n--- ", "\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n"},
	{"diff --git a/x b/x\n--- a/x\n+++ ", "\n@@ -1 +1 @@\n-a\n+b\n"},
	{"diff --git a/x b/x\nindex ", "\n"},
	{"diff --git a/x b/x\nindex 1..", "\n"},
	{"diff --git a/x b/x\nold mode ", "\n"},
	{"diff --git a/x b/x\nnew file mode ", "\n"},
	{"diff --git a/x b/x\ndeleted file mode ", ""},
	{"diff --git a/x b/x\nsimilarity index ", "\n"},
	{"diff --git a/x b/x\ndissimilarity index ", ""},
	{"diff --git a/x b/y\nrename from ", "\nrename to y\n"},
	{"diff --git a/x b/y\ncopy from x\ncopy to ", ""},
	{"diff --git a/x b/x\nGIT binary patch\n", "\n\n"},
	{"diff --git a/x b/x\nGIT binary patch\nliteral ", "\nA00000\n\n"},
	{"diff --git a/x b/x\nGIT binary patch\nliteral 3\n", "\n\n"},
	{"diff --git a/x b/x\nGIT binary patch\ndelta 3\n", ""},
	{"diff --git a/x b/x\nGIT binary patch\nliteral 0\n\nliteral ", "\n"},
	{"diff --git a/x b/x\nindex 1..2\nBinary files ", "\n"},
	{"Binary files ", " differ\n"},
	{"--- ", "\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"},
	{"--- a\n+++ ", "\n@@ -1 +1 @@\n-a\n+b\n"},
	{"--- a\n+++ b\n", "\n"},
	{"--- a\n+++ b\n@@ -", " +1 @@\n-a\n+b\n"},
	{"--- a\n+++ b\n@@ -1 +", "\n-a\n+b\n"},
	{"--- a\n+++ b\n@@ -1 +1 ", "\n-a\n+b\n"},
	{"--- a\n+++ b\n@@ -1,2 +1 @@\n", ""},
	{"--- a\n+++ b\n@@ -1 +1 @@\n-a\n", ""},
	{"--- a\n+++ b\n@@ -0,0 +1,9223372036854775807 @@\n+", "\n"},
	{"--- a\n+++ b\n@@ -9223372036854775807,1 +1 @@\n-", "\n+b\n"},
	{"--- a\t19", "\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"},
	{"@@ -1 +1 @@", "\n-a\n+b\n"},
	{"--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n\\", ""},
	{"--- a\n+++ b\n@@ -1,0 +1", " @@\n"},
}

// C16_parse_headers 36 patches with 0..3 (4) arbitrary bytes inside one of
// their lines; the files found are printed, validated, read and applied.
func C16_parse_headers() {
	c := parseContexts[sym.Choose("context", len(parseContexts))]
	parseAndUse(c[0] + sym.String("b", sym.Choose("len", pick(4, 5))) + c[1])
}

// C16_parse_cut the same patches with one arbitrary byte, ending anywhere
// after it.
func C16_parse_cut() {
	c := parseContexts[sym.Choose("context", len(parseContexts))]
	end := sym.Choose("end", 40)
	if end > len(c[1]) {
		return
	}
	parseAndUse(c[0] + sym.String("b", 1) + c[1][:end])
}

// C16_text_fragment a fragment of 0..2 lines of 0..1 arbitrary bytes with any
// operations, any 64-bit positions except 7..5000, and either counts that match
// the lines or any 64-bit value in one of six counts, on a source of 0..2 (3)
// arbitrary bytes, alone or after another fragment.
func C16_text_fragment() {
	f := &gitdiff.TextFragment{}
	for i, n := 0, sym.Choose("lines", 3); i < n; i++ {
		f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.LineOp(sym.Choose("op"+itoa(i), 5) - 1), Line: sym.String("line"+itoa(i), sym.Choose("len"+itoa(i), 2))})
	}
	fill(f)
	any := sym.Int64("count")
	switch sym.Choose("wrong", pick(4, 7)) {
	case 1:
		f.OldLines = any
	case 2:
		f.NewLines = any
	case 3:
		f.OldLines, f.NewLines = any, any
	case 4:
		f.LinesAdded = any
	case 5:
		f.LinesDeleted = any
	case 6:
		f.LeadingContext, f.TrailingContext = any, any
	}
	f.OldPosition, f.NewPosition = sym.Int64("oldpos"), sym.Int64("newpos")
	sym.Assume(sym.Or(f.OldPosition < 7, f.OldPosition > 5000))
	src := sym.Bytes("src", sym.Choose("srclen", pick(3, 4)))
	var dst sink
	a := gitdiff.NewTextApplier(&dst, &memAt{src})
	if sym.Choose("second", 2) == 1 {
		_ = a.ApplyFragment(fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "n"}}}))
	}
	err := a.ApplyFragment(f)
	_ = a.Close()
	if err == nil {
		sym.Reach("applied")
	}
}

// C16_string a fragment and a file with any 64-bit numbers and mode bits,
// scores, flags, and short arbitrary names and contents are printed.
func C16_string() {
	n := []int64{0, 1, -1, 1<<63 - 1, -1 << 63, 77}[sym.Choose("number", 6)]
	frag := &gitdiff.TextFragment{OldPosition: n, OldLines: n, NewPosition: n, NewLines: n, Comment: sym.String("comment", 1)}
	frag.Lines = []gitdiff.Line{{Op: gitdiff.LineOp(sym.Int64("op")), Line: sym.String("line", sym.Choose("len", 2))}}
	_ = frag.Lines[0].String()
	f := &gitdiff.File{OldName: sym.String("old", sym.Choose("oldlen", 2)), NewName: "n",
		OldMode: os.FileMode(uint32(n)), NewMode: os.FileMode(uint32(n)), Score: int(n), OldOIDPrefix: "x", NewOIDPrefix: "\n"}
	switch sym.Choose("kind", 3) {
	case 0:
		f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = sym.Bool("isnew"), sym.Bool("isdelete"), sym.Bool("iscopy"), sym.Bool("isrename")
		f.NewName = sym.String("new", sym.Choose("newlen", 2))
	case 1:
		bin := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(sym.Choose("method", 4) - 1), Size: n, RawData: sym.Bytes("raw", []int{0, 1, 3, 5, 53}[sym.Choose("rawlen", 5)])}
		f.IsBinary = true
		f.BinaryFragment = bin
		f.ReverseBinaryFragment = bin
	case 2:
		f.TextFragments = []*gitdiff.TextFragment{frag}
	}
	sym.Assert(len(f.String()) > 0, "a file has no text")
}

// C16_apply_file files whose fragments and kind disagree, with nil fragments,
// and fragments of any method, any 64-bit size, and 0..2 (8) arbitrary bytes
// of raw data.
func C16_apply_file() {
	f := &gitdiff.File{}
	if sym.Choose("raw", 2) == 1 {
		f.IsBinary = true
		size := sym.Int64("size")
		sym.Assume(sym.Or(size < 64, size > 1<<20))
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(sym.Choose("method", 4) - 1), Size: size, RawData: sym.Bytes("raw", sym.Choose("len", pick(3, 9)))}
	} else {
		f.IsBinary = sym.Choose("isbinary", 2) == 1
		switch sym.Choose("text", 4) {
		case 1:
			f.TextFragments = []*gitdiff.TextFragment{nil}
		case 2:
			f.TextFragments = []*gitdiff.TextFragment{{}, nil}
		case 3:
			p, q := sym.Int64("p"), sym.Int64("q")
			sym.Assume(sym.And(sym.Or(p < 4, p > 5000), sym.Or(q < 4, q > 1<<62)))
			f.TextFragments = []*gitdiff.TextFragment{{OldPosition: p}, {OldPosition: q}}
		}
		if sym.Choose("binary", 2) == 1 {
			f.BinaryFragment = &gitdiff.BinaryFragment{}
		}
	}
	var dst sink
	_ = gitdiff.Apply(&dst, &memAt{[]byte("a\n")}, f, gitdiff.WithMaxBinaryFragmentBytes(sym.Int64("limit")))
	if f.BinaryFragment != nil {
		_ = gitdiff.NewBinaryApplier(&dst, &memAt{nil}).ApplyFragment(nil)
		_ = f.BinaryFragment.String()
	}
}

// C16_zlib literals whose stream is a valid one of 3 bytes with one (two)
// arbitrary bytes in it, or a header and 0..3 (6) arbitrary bytes.
func C16_zlib() {
	z := stored([]byte("abc"), 2)
	if sym.Choose("kind", 2) == 0 {
		i := sym.Choose("i", len(z)-1)
		z[i] = sym.Byte("x")
		if sym.Thorough() {
			z[i+1] = sym.Byte("y")
		}
	} else {
		z = append([]byte{0x78, 0x01}, sym.Bytes("x", sym.Choose("n", pick(4, 7)))...)
	}
	var dst sink
	f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(sym.Choose("method", 2)), Size: 3, RawData: z}
	err := gitdiff.NewBinaryApplier(&dst, &memAt{nil}).ApplyFragment(f)
	sym.Assert(len(dst.b) <= 4, "more than size+1 bytes are produced")
	if err == nil {
		sym.Reach("applied")
	}
}

// C16_delta deltas of 0..5 (7) arbitrary bytes with copies of up to 8 or of
// more than 64 Ki bytes, on a source of 3 bytes.
func C16_delta() {
	d := sym.Bytes("d", sym.Choose("len", pick(6, 8)))
	var dst sink
	_, _ = refDelta([]byte("abc"), d, smallCopy)
	_ = gitdiff.NewBinaryApplier(&dst, &memAt{[]byte("abc")}).ApplyFragment(deltaFrag(d))
}

// C16_identity ParsePatchIdentity and String on 0..5 (7) arbitrary bytes.
func C16_identity() {
	id, err := gitdiff.ParsePatchIdentity(sym.String("s", sym.Choose("len", pick(6, 8))))
	if err == nil {
		sym.Reach("parsed")
		_ = id.String()
	} else {
		_ = err.Error()
	}
}

// C16_date ParsePatchDate on 0..3 (4) arbitrary bytes, and on dates in eight
// formats with one (two adjacent) arbitrary bytes anywhere.
func C16_date() {
	forms := []string{"", "2005-04-07 22:13:13 +0200", "2005-04-07T22:13:13-07:00", "Thu, 7 Apr 2005 22:13:13 +0200", "2005-04-07", "Thu Apr 7 22:13:13 2005 -0700", "Thu Apr 17 22:13:13 2005", "1112911993", "1112911993 -0700"}
	s := forms[sym.Choose("form", len(forms))]
	if s == "" {
		s = sym.String("s", sym.Choose("len", pick(4, 5)))
	} else {
		n := pick(1, 2)
		i := sym.Choose("i", 32)
		if i+n > len(s) {
			return
		}
		s = s[:i] + sym.String("s", n) + s[i+n:]
	}
	_, err := gitdiff.ParsePatchDate(s)
	if err == nil {
		sym.Reach("parsed")
	}
}

var headerContexts = [][2]string{
	{"", ""},
	{"commit ", "\n\n    T\n"},
	{"commit 1\nAuthor:", "\n\n    T\n"},
	{"commit 1\nAuthor: A <a@b>\nDate:   ", "\n"},
	{"commit 1\nCommitDate: ", "\nCommit: x\n\n    T\n"},
	{"commit 1\n", "\n\n    T\n\n    b\n"},
	{"commit 1\n\n", "\n T\n\n  b\n"},
	{"commit 1\n\n    T\n", "\n    b\n"},
	{"From ", " Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: [PATCH] x\n\nb\n"},
	{"From 1 Mon\nFrom: ", "\nSubject: x\n\nb\n"},
	{"From: A <a@b>\nDate: ", "\n\nb\n"},
	{"From: A <a@b>\nSubject: ", "\n\nb\n"},
	{"From: A <a@b>\nSubject: [", "] x\n\n"},
	{"From: A <a@b>\nSubject: =?UTF-8?q?", "?=\n\nb\n"},
	{"From: A <a@b>\n", "\n\nb\n"},
	{"From: A <a@b>\n\n", "\n---\nx\n"},
	{"From: A <a@b>\n\nb\n---\n", ""},
}

// C16_header ParsePatchHeader on 17 headers with 0..2 (3) arbitrary bytes in
// them, with each of the three clean modes.
func C16_header() {
	c := headerContexts[sym.Choose("context", len(headerContexts))]
	h, err := gitdiff.ParsePatchHeader(c[0]+sym.String("b", sym.Choose("len", pick(3, 4)))+c[1], gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanMode(sym.Choose("mode", 3))))
	if err == nil {
		sym.Reach("parsed")
		_ = h.Message()
	} else {
		_ = err.Error()
	}
	_ = (*gitdiff.PatchHeader)(nil).Message()
}

// C16_repeat one of 22 pieces of syntax 65, 257 and 1025 (20000) times, followed by an arbitrary
// byte, in 21 places of patches, headers, identities and dates.
func C16_repeat() {
	unit := []string{"(", ")", "(\\", "\\", "\"", "<", ">", "[", "[]", "@", " ", ":", "Re: ", " =?UTF-8?q?", "\t", "=C3", "/", ",", "..", "\n", "9", "0"}[sym.Choose("unit", 22)]
	n := []int{65, 257, 1025, 20000}[sym.Choose("n", pick(3, 4))]
	u := repeat(unit, n) + sym.String("c", 1)
	where := sym.Choose("where", 21)
	switch where {
	case 0:
		id, err := gitdiff.ParsePatchIdentity(u)
		_, _ = id.String(), err
		return
	case 1:
		_, _ = gitdiff.ParsePatchIdentity("A <a@b> " + u)
		return
	case 2:
		_, _ = gitdiff.ParsePatchDate(u)
		return
	case 3, 4, 5, 6, 7:
		h, err := gitdiff.ParsePatchHeader([]string{"From: A <a@b>\nSubject: ", "From: A <a@b>\nSubject: [PATCH] =?UTF-8?q?x", "From: ", "From: A <a@b>\nSubject: x\n\n---\n", "commit "}[where-3]+u,
			gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanMode(sym.Choose("mode", 3))))
		if err == nil {
			_ = h.Message()
		}
		return
	case 8:
		h, err := gitdiff.ParsePatchHeader("commit 1\nAuthor: A <a@b>\n\n" + u)
		if err == nil {
			_ = h.Message()
		}
		return
	}
	head := "diff --git a/x b/x\n"
	text := []string{"diff --git ", "diff --git a/", "diff --git \"a/", head + "index 1", head + "old mode ", head + "rename from ", head + "similarity index ",
		head + "--- a/x\n+++ b/x\n@@ -", "--- x\n+++ x\n@@ -1 +1 @@", "--- x\t", head + "GIT binary patch\nliteral ", head + "GIT binary patch\nliteral 1\n"}[where-9] + u + "\n"
	if where == 18 {
		text += "+++ x\n@@ -1 +1 @@\n"
	}
	files, _, err := gitdiff.Parse(strings.NewReader(text + "-a\n+b\n"))
	for _, f := range files {
		_ = f.String()
	}
	if err != nil {
		_ = err.Error()
	}
}

// oddLines is a source whose lines are any texts.
type oddLines struct{ lines []string }

func (o *oddLines) ReadAt([]byte, int64) (int, error) { return 0, io.EOF }

func (o *oddLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	n := 0
	for ; n < len(lines); n++ {
		if off+int64(n) >= int64(len(o.lines)) {
			return n, io.EOF
		}
		lines[n] = []byte(o.lines[off+int64(n)])
	}
	return n, nil
}

// C16_odd_lines a fragment of one line (any operation, any position up to 4) on a source of
// 0..3 lines of 0..1 arbitrary bytes each, empty ones included.
func C16_odd_lines() {
	o := &oddLines{}
	for i, n := 0, sym.Choose("n", 4); i < n; i++ {
		o.lines = append(o.lines, sym.String("l"+itoa(i), sym.Choose("len"+itoa(i), 2)))
	}
	f := fill(&gitdiff.TextFragment{OldPosition: int64(sym.Choose("pos", 5)), NewPosition: int64(sym.Choose("new", 2)),
		Lines: []gitdiff.Line{{Op: opOf[sym.Choose("op", 3)], Line: sym.String("line", sym.Choose("len", 2))}}})
	var dst sink
	if gitdiff.Apply(&dst, o, &gitdiff.File{OldName: "x", NewName: "x", TextFragments: []*gitdiff.TextFragment{f}}) == nil {
		sym.Reach("applied")
	}
}

var wholePatches = []string{
	"diff --git a/x b/x\nindex 12..34 100644\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@ f\n c\n-a\n+b\n@@ -9 +9 @@\n-a\n\\ No newline at end\n+b\n",
	"diff --git a/x b/y\nold mode 100644\nnew mode 100755\nsimilarity index 90%\nrename from x\nrename to y\n--- a/x\n+++ b/y\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git \"a/\\101 x\" \"b/\\101 x\"\nnew file mode 100644\n--- /dev/null\n+++ \"b/\\101 x\"\n@@ -0,0 +1 @@\n+b\n",
	"--- x\t1970-01-01 00:00:00 +0000\n+++ x\t2005-04-07 22:13:13.5 +02:00\n@@ -0,0 +1,2 @@\n+a\n+b\n",
	"diff --git a/x b/x\nindex 1..2\nGIT binary patch\nliteral 3\nLcmZQzWMT#Y01f~L\n\ndelta 4\nEcmZQzU|?Wi00IC50{{R3\n\n",
	"diff --git a/x b/x\ndeleted file mode 100644\nindex 1..0\nBinary files a/x and /dev/null differ\ndiff --git a/y b/y\ncopy from z\ncopy to y\n",
}

var wholeHeaders = []string{
	"commit 61f5cd9 (x)\nAuthor:     A B <a@b>\nAuthorDate: Thu Apr 7 22:13:13 2005 +0200\nCommit: \"C\" <c@d>\nCommitDate: 1112911993 -0700\n\n    t\n    t\n\n    b\n     c\n",
	"From 61f5cd9 Mon Sep 17\nFrom: =?UTF-8?q?A?= <a@b>\nDate: Thu, 7 Apr 2005 22:13:13 +0200\nSubject: Re: [PATCH 1/2] =?UTF-8?q?A=4A?=\n =?UTF-8?q?b?=\n\nbody\n---\nrest\n",
}

// damaged is a text of which one byte is missing, is another one, or has an arbitrary
// byte before it, or which is cut there.
func damaged(s string) string {
	i := sym.Choose("i", 250)
	if i >= len(s) {
		return s
	}
	switch sym.Choose("how", 4) {
	case 0:
		return s[:i] + sym.String("c", 1) + s[i+1:]
	case 1:
		return s[:i] + s[i+1:]
	case 2:
		return s[:i]
	}
	return s[:i] + sym.String("c", 1) + s[i:]
}

// C16_damaged six whole patches with one byte anywhere missing, replaced or
// preceded by an arbitrary one, or cut.
func C16_damaged() {
	parseAndUse(damaged(wholePatches[sym.Choose("patch", len(wholePatches))]))
}

// C16_damaged_header two whole commit headers with one byte anywhere missing, replaced or
// preceded by an arbitrary one, or cut.
func C16_damaged_header() {
	h, err := gitdiff.ParsePatchHeader(damaged(wholeHeaders[sym.Choose("header", 2)]))
	if err == nil {
		_ = h.Message()
		sym.Reach("header")
	}
}
