package props

import (
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// sameBin compares two binary fragments.
func sameBin(a, b *gitdiff.BinaryFragment) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Method == b.Method && a.Size == b.Size && string(a.RawData) == string(b.RawData)
}

// assertSameFile asserts that every field is equal.
func assertSameFile(got, want *gitdiff.File) {
	sym.Assert(got.OldName == want.OldName, "wrong old name")
	sym.Assert(got.NewName == want.NewName, "wrong new name")
	sym.Assert(got.IsNew == want.IsNew && got.IsDelete == want.IsDelete, "wrong new/delete flag")
	sym.Assert(got.IsCopy == want.IsCopy && got.IsRename == want.IsRename, "wrong copy/rename flag")
	sym.Assert(got.OldMode == want.OldMode && got.NewMode == want.NewMode, "wrong mode")
	sym.Assert(got.OldOIDPrefix == want.OldOIDPrefix && got.NewOIDPrefix == want.NewOIDPrefix, "wrong object id")
	sym.Assert(got.Score == want.Score, "wrong score")
	sym.Assert(got.IsBinary == want.IsBinary, "wrong binary flag")
	sym.Assert(len(got.TextFragments) == len(want.TextFragments), "wrong number of fragments")
	for i := range got.TextFragments {
		sym.Assert(sameFrag(got.TextFragments[i], want.TextFragments[i]), "wrong fragment")
	}
	sym.Assert(sameBin(got.BinaryFragment, want.BinaryFragment), "wrong binary fragment")
	sym.Assert(sameBin(got.ReverseBinaryFragment, want.ReverseBinaryFragment), "wrong reverse binary fragment")
}

// checkRoundTrip formats and parses files.
func checkRoundTrip(files ...*gitdiff.File) {
	var text string
	for _, f := range files {
		text += f.String()
	}
	got, pre, err := gitdiff.Parse(strings.NewReader(text))
	sym.Assert(err == nil, "formatted files do not parse")
	sym.Assert(pre == "", "formatted files have a preamble")
	sym.Assert(len(got) == len(files), "wrong number of files")
	for i := range got {
		assertSameFile(got[i], files[i])
	}
}

// plain is a name of n bytes that need no quoting and have no slash.
func plain(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\' && s[i] != '/')
	}
	return s
}

// hex is n arbitrary lower-case hexadecimal digits.
func hex(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f')))
	}
	return s
}

// modes are file modes Git uses (and one of one digit).
func mode(name string) os.FileMode {
	return os.FileMode([]int{0o100644, 0o100755, 0o120000, 0o160000, 0o7}[sym.Choose(name, 5)])
}

// symText is a line content of n arbitrary bytes without newline, then a
// newline or not.
func symText(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '\n')
	}
	if sym.Choose(name+".eol", 2) == 0 {
		s += "\n"
	}
	return s
}

func oids(f *gitdiff.File, n int) {
	if sym.Choose("oids", 2) == 1 {
		f.OldOIDPrefix, f.NewOIDPrefix = hex("old", n), hex("new", n)
	}
}

// fileKind builds one of the kinds of text File that Git produces, without
// fragments. text tells whether fragments follow.
func fileKind(k int, text bool) *gitdiff.File {
	f := &gitdiff.File{}
	name := plain("name", 2)
	switch k {
	case 0: // modified
		f.OldName, f.NewName = name, name
		oids(f, 2)
		if f.OldOIDPrefix != "" && sym.Choose("mode", 2) == 1 {
			f.OldMode = mode("oldmode")
		}
	case 1: // mode change
		f.OldName, f.NewName = name, name
		f.OldMode, f.NewMode = mode("oldmode"), mode("newmode")
		oids(f, 2)
	case 2: // new
		f.IsNew, f.NewName = true, name
		if !text || sym.Choose("mode", 2) == 1 {
			f.NewMode = mode("newmode")
		}
		oids(f, 2)
	case 3: // deleted
		f.IsDelete, f.OldName = true, name
		if !text || sym.Choose("mode", 2) == 1 {
			f.OldMode = mode("oldmode")
		}
		oids(f, 2)
	case 4, 5: // rename, copy
		f.OldName, f.NewName = name, plain("newname", 2)
		f.IsRename, f.IsCopy = k == 4, k == 5
		f.Score = sym.Concrete(sym.Int("score", 0, 100))
		switch sym.Choose("modes", 3) {
		case 1:
			f.OldMode, f.NewMode = mode("oldmode"), mode("newmode")
		case 2:
			f.OldOIDPrefix, f.NewOIDPrefix = hex("old", 2), hex("new", 2)
			f.OldMode = 0o100644
		}
	case 6: // rewrite
		f.OldName, f.NewName = name, name
		f.Score = sym.Concrete(sym.Int("score", 0, 100))
		oids(f, 2)
	}
	return f
}

// C07_headers every kind of text File (modified, mode change, new, deleted,
// renamed, copied, rewritten), names and object ids of two arbitrary plain
// characters, five modes, scores 0..100, without fragments or with one that
// fits the kind.
func C07_headers() {
	k := sym.Choose("kind", 7)
	text := sym.Choose("text", 2) == 1
	f := fileKind(k, text)
	if text {
		frag := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
		switch k {
		case 2:
			frag.OldPosition = 0
			frag.Lines = []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "x\n"}}
		case 3:
			frag.NewPosition = 0
			frag.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "x\n"}}
		default:
			frag.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "x\n"}, {Op: gitdiff.OpAdd, Line: "y"}}
		}
		f.TextFragments = []*gitdiff.TextFragment{fill(frag)}
	}
	checkRoundTrip(f)
}

// C07_modes every pair of modes of up to 31 bits (0 excepted) with an
// arbitrary octal digit at any place, for each kind that shows modes.
func C07_modes() {
	m := func(name string) os.FileMode {
		shift := uint(3 * sym.Choose(name+".at", 11))
		d := sym.Choose(name+".digit", 8)
		v := 0o100644&^(7<<shift) | d<<shift
		sym.Assume(v > 0 && v < 1<<31)
		return os.FileMode(v)
	}
	f := &gitdiff.File{OldName: "n", NewName: "n"}
	switch sym.Choose("kind", 4) {
	case 0:
		f.OldMode, f.NewMode = m("old"), 0o100755
		if sym.Choose("swap", 2) == 1 {
			f.OldMode, f.NewMode = f.NewMode, f.OldMode
		}
	case 1:
		f.IsNew, f.OldName, f.NewMode = true, "", m("new")
	case 2:
		f.IsDelete, f.NewName, f.OldMode = true, "", m("old")
	case 3:
		f.OldOIDPrefix, f.NewOIDPrefix, f.OldMode = "1", "2", m("old")
		if sym.Choose("same", 2) == 1 {
			f.NewMode = f.OldMode
		}
	}
	checkRoundTrip(f)
}

// C07_lines one fragment of 1..3 (4) lines with any operations and contents of
// 0..2 arbitrary bytes with or without a final newline.
func C07_lines() {
	n := 1 + sym.Choose("lines", pick(3, 4))
	frag := &gitdiff.TextFragment{OldPosition: 3, NewPosition: 4}
	for i := 0; i < n; i++ {
		name := "l" + itoa(i)
		op := opOf[sym.Choose(name+".op", 3)]
		frag.Lines = append(frag.Lines, gitdiff.Line{Op: op, Line: symText(name, sym.Choose(name+".len", pick(2, 3)))})
	}
	fill(frag)
	sym.Assume(frag.LinesAdded+frag.LinesDeleted > 0)
	checkRoundTrip(&gitdiff.File{OldName: "a", NewName: "a", TextFragments: []*gitdiff.TextFragment{frag}})
}

// C07_marker_like contents that look like patch syntax after the operation
// character, at any place of a fragment of two or three lines.
func C07_marker_like() {
	texts := []string{"\\ No newline at end of file", "@@ -1 +1 @@", "diff --git a/x b/x", "-- /dev/null", "++ b/y", "-- a\n", "GIT binary patch\n", "\\ No newline at end of file\n", "\r", "", "\n", " ", "Binary files a/x and b/y differ\n"}
	n := 2 + sym.Choose("lines", 2)
	frag := &gitdiff.TextFragment{OldPosition: 3, NewPosition: 4}
	for i := 0; i < n; i++ {
		name := "l" + itoa(i)
		frag.Lines = append(frag.Lines, gitdiff.Line{Op: opOf[sym.Choose(name+".op", 3)], Line: texts[sym.Choose(name, len(texts))]})
	}
	fill(frag)
	sym.Assume(frag.LinesAdded+frag.LinesDeleted > 0)
	checkRoundTrip(&gitdiff.File{OldName: "a", NewName: "a", TextFragments: []*gitdiff.TextFragment{frag}})
}

// C07_comment section comments of 0..4 (5) arbitrary bytes without newline
// and surrounding white space.
func C07_comment() {
	c := sym.String("comment", sym.Choose("len", pick(5, 6)))
	for i := 0; i < len(c); i++ {
		sym.Assume(c[i] != '\n')
	}
	sym.Assume(strings.TrimSpace(c) == c)
	frag := fill(&gitdiff.TextFragment{Comment: c, OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "x\n"}}})
	checkRoundTrip(&gitdiff.File{OldName: "a", NewName: "a", TextFragments: []*gitdiff.TextFragment{frag}})
}

// C07_positions positions from 0 to 2^63-1: every value whose decimal digits
// are those of ten patterns with one arbitrary digit.
func C07_positions() {
	num := func(name string) int64 {
		base := []int64{0, 10, 99, 100, 12345, 1<<31 - 1, 1 << 32, 999999999999, 1 << 62, 1<<63 - 10}[sym.Choose(name, 10)]
		return base + int64(sym.Concrete(sym.Int(name+".d", 0, 9)))
	}
	frag := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "x\n"}, {Op: gitdiff.OpDelete, Line: "y\n"}}}
	fill(frag)
	if sym.Choose("side", 2) == 0 {
		frag.OldPosition = num("pos")
		sym.Assume(frag.OldPosition > 0)
	} else {
		frag.NewPosition = num("pos")
	}
	checkRoundTrip(&gitdiff.File{OldName: "a", NewName: "a", TextFragments: []*gitdiff.TextFragment{frag}})
}

// C07_several two files of any kinds, the first with 0..2 fragments, the last
// line with or without newline.
func C07_several() {
	mk := func(p string, k int) *gitdiff.File {
		f := &gitdiff.File{OldName: p, NewName: p}
		n := sym.Choose(p+".frags", 3)
		switch k {
		case 0:
		case 1:
			f.OldMode, f.NewMode = 0o100644, 0o100755
		case 2:
			f.IsNew, f.OldName, f.NewMode = true, "", 0o100644
		case 3:
			f.IsDelete, f.NewName, f.OldMode = true, "", 0o100644
		case 4:
			f.IsRename, f.NewName, f.Score = true, p+"2", 90
		case 5:
			f.IsCopy, f.NewName, f.OldOIDPrefix, f.NewOIDPrefix = true, p+"3", "12", "34"
		}
		if k != 0 && k != 1 && k != 4 && k != 5 && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			frag := &gitdiff.TextFragment{OldPosition: int64(1 + 5*i), NewPosition: int64(1 + 5*i)}
			l := symText(p+itoa(i), 1)
			switch k {
			case 2:
				frag.OldPosition = 0
				frag.Lines = []gitdiff.Line{{Op: gitdiff.OpAdd, Line: l}}
			case 3:
				frag.NewPosition = 0
				frag.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: l}}
			default:
				frag.Lines = []gitdiff.Line{{Op: gitdiff.OpContext, Line: "c\n"}, {Op: opOf[1+sym.Choose(p+"op", 2)], Line: l}}
			}
			f.TextFragments = append(f.TextFragments, fill(frag))
		}
		return f
	}
	checkRoundTrip(mk("p", sym.Choose("k1", 6)), mk("q", sym.Choose("k2", 6)))
}

// C07_pieces TextFragment.String and Header are the text of File.String: a
// fragment of two lines with arbitrary contents and comment.
func C07_pieces() {
	frag := &gitdiff.TextFragment{OldPosition: int64(sym.Concrete(sym.Int("op", 1, 12))), NewPosition: int64(sym.Concrete(sym.Int("np", 0, 12)))}
	if sym.Choose("comment", 2) == 1 {
		frag.Comment = sym.String("c", 2)
	}
	frag.Lines = []gitdiff.Line{{Op: opOf[sym.Choose("o1", 3)], Line: symText("t1", 1)}, {Op: opOf[sym.Choose("o2", 3)], Line: symText("t2", 1)}}
	fill(frag)
	f := &gitdiff.File{OldName: "a", NewName: "a", TextFragments: []*gitdiff.TextFragment{frag, frag}}
	s := frag.String()
	sym.Assert(strings.HasPrefix(s, frag.Header()+"\n"), "String does not start with Header")
	sym.Assert(f.String() == "diff --git a/a b/a\n--- a/a\n+++ b/a\n"+s+s, "File.String does not consist of the fragments")
	want := "@@ -" + itoa(int(frag.OldPosition)) + "," + itoa(int(frag.OldLines)) + " +" + itoa(int(frag.NewPosition)) + "," + itoa(int(frag.NewLines)) + " @@"
	if frag.Comment != "" {
		want += " " + frag.Comment
	}
	sym.Assert(frag.Header() == want, "wrong Header")
	for _, l := range frag.Lines {
		want += "\n" + l.Op.String() + l.Line
		if l.Line == "" || l.Line[len(l.Line)-1] != '\n' {
			want += "\n\\ No newline at end of file"
		} else {
			want = want[:len(want)-1]
		}
	}
	sym.Assert(s == want+"\n", "wrong String")
}

// C07_parsed a patch as Git writes it, with arbitrary plain names, object ids
// and line contents, parses to the same File again after formatting.
func C07_parsed() {
	a, b := plain("a", 2), plain("b", 2)
	oid := hex("oid", 2)
	line := sym.String("line", 1)
	sym.Assume(line != "\n")
	hunk := "@@ -1,2 +1,2 @@ " + line + "\n c\n-" + line + "\n+" + line + line + "\n"
	if sym.Choose("noeol", 2) == 1 {
		hunk += "\\ No newline at end of file\n"
	}
	var p string
	switch sym.Choose("kind", 9) {
	case 0:
		p = "diff --git a/" + a + " b/" + a + "\nindex " + oid + ".." + oid + " 100644\n--- a/" + a + "\n+++ b/" + a + "\n" + hunk
	case 1:
		p = "diff --git a/" + a + " b/" + a + "\nnew file mode 100644\nindex 0000.." + oid + "\n--- /dev/null\n+++ b/" + a + "\n@@ -0,0 +1 @@\n+" + line + "\n"
	case 2:
		p = "diff --git a/" + a + " b/" + a + "\ndeleted file mode 100644\nindex " + oid + "..0000\n--- a/" + a + "\n+++ /dev/null\n@@ -1 +0,0 @@\n-" + line + "\n"
	case 3:
		p = "diff --git a/" + a + " b/" + b + "\nsimilarity index 9" + itoa(sym.Choose("s", 10)) + "%\nrename from " + a + "\nrename to " + b + "\nindex " + oid + ".." + oid + " 100644\n--- a/" + a + "\n+++ b/" + b + "\n" + hunk
	case 4:
		p = "diff --git a/" + a + " b/" + b + "\nsimilarity index 100%\ncopy from " + a + "\ncopy to " + b + "\n"
	case 5:
		p = "diff --git a/" + a + " b/" + a + "\nold mode 100644\nnew mode 100755\n"
	case 6:
		p = "diff --git a/" + a + " b/" + a + "\nnew file mode 100644\nindex 0000.." + oid + "\n"
	case 7:
		p = "diff --git a/" + a + " b/" + a + "\ndissimilarity index 8" + itoa(sym.Choose("s", 10)) + "%\nindex " + oid + ".." + oid + " 100755\n--- a/" + a + "\n+++ b/" + a + "\n" + hunk
	case 8: // traditional
		switch sym.Choose("side", 3) {
		case 0:
			p = "--- " + a + "\n+++ " + b + "\n" + hunk
		case 1:
			p = "--- /dev/null\n+++ " + b + "\n@@ -0,0 +1 @@ x\n+" + line + "\n"
		case 2:
			p = "--- " + a + "\n+++ /dev/null\n@@ -1,1 +0,0 @@ y\n-" + line + "\n"
		}
	}
	files, _, err := gitdiff.Parse(strings.NewReader(p))
	sym.Assert(err == nil && len(files) == 1, "a patch as Git writes it is rejected")
	checkRoundTrip(files[0])
}

// gitName tells whether Git can write a name.
func gitName(s string) bool {
	ok := s != "" && s[0] != '/' && s[len(s)-1] != '/'
	for i := 0; i < len(s); i++ {
		ok = ok && s[i] != 0 && !(s[i] == '/' && i > 0 && s[i-1] == '/')
	}
	return ok
}

// gitFile tells whether Git can write a text file like f.
func gitFile(f *gitdiff.File) bool {
	if f.IsBinary || f.IsNew && f.IsDelete || f.IsRename && f.IsCopy || (f.IsNew || f.IsDelete) && (f.IsRename || f.IsCopy) {
		return false
	}
	switch {
	case f.IsNew:
		if f.OldName != "" || f.OldMode != 0 || !gitName(f.NewName) {
			return false
		}
	case f.IsDelete:
		if f.NewName != "" || f.NewMode != 0 || !gitName(f.OldName) {
			return false
		}
	default:
		if !gitName(f.OldName) || !gitName(f.NewName) || f.OldName != f.NewName && !f.IsRename && !f.IsCopy {
			return false
		}
		if f.NewMode != 0 && (f.OldMode == 0 || f.OldMode == f.NewMode) || f.OldMode != 0 && f.NewMode == 0 && f.OldOIDPrefix == "" {
			return false
		}
	}
	for _, oid := range []string{f.OldOIDPrefix, f.NewOIDPrefix} {
		for i := 0; i < len(oid); i++ {
			if !(oid[i] >= '0' && oid[i] <= '9' || oid[i] >= 'a' && oid[i] <= 'f') {
				return false
			}
		}
	}
	if (f.OldOIDPrefix == "") != (f.NewOIDPrefix == "") {
		return false
	}
	for _, t := range f.TextFragments {
		if t.Validate() != nil || strings.TrimSpace(t.Comment) != t.Comment {
			return false
		}
	}
	return true
}

// C07_damaged six whole patches with one byte anywhere missing, replaced or preceded by an
// arbitrary one, or cut: the files parsed from them, if Git's format can represent them.
func C07_damaged() {
	files, _, _ := gitdiff.Parse(strings.NewReader(damaged(wholePatches[sym.Choose("patch", len(wholePatches))])))
	for _, f := range files {
		if gitFile(f) {
			sym.Reach("file")
			checkRoundTrip(f)
		}
	}
}
