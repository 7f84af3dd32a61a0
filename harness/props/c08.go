package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// path is a relative path of n arbitrary bytes without NUL and without empty
// components.
func path(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != 0)
		if i == 0 || i == n-1 {
			sym.Assume(s[i] != '/')
		} else {
			sym.Assume(sym.Not(sym.And(s[i] == '/', s[i-1] == '/')))
		}
	}
	return s
}

// gitQuote is how Git writes a name (quote.c); quotepath tells whether bytes
// from 0x80 on are escaped.
func gitQuote(s string, quotepath bool) string {
	out := `"`
	must := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		esc := byte(0)
		switch c {
		case 7:
			esc = 'a'
		case 8:
			esc = 'b'
		case 9:
			esc = 't'
		case 10:
			esc = 'n'
		case 11:
			esc = 'v'
		case 12:
			esc = 'f'
		case 13:
			esc = 'r'
		case '"', '\\':
			esc = c
		}
		switch {
		case esc != 0:
			must = true
			out += "\\" + string([]byte{esc})
		case c < 0x20 || c == 0x7f || c >= 0x80 && quotepath:
			must = true
			out += "\\" + string([]byte{'0' + c>>6, '0' + c>>3&7, '0' + c&7})
		default:
			out += s[i : i+1]
		}
	}
	if !must {
		return s
	}
	return out + `"`
}

// nameFile is a File of one of six kinds that uses the name in different
// header positions.
func nameFile(k int, name, other string) *gitdiff.File {
	f := &gitdiff.File{OldName: name, NewName: name}
	frag := fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "x\n"}, {Op: gitdiff.OpAdd, Line: "y\n"}}})
	switch k {
	case 0: // only the diff --git line
		f.OldMode, f.NewMode = 0o100644, 0o100755
	case 1: // --- and +++
		f.TextFragments = []*gitdiff.TextFragment{frag}
	case 2:
		f.NewName, f.IsRename = other, true
	case 3:
		f.OldName, f.IsCopy = other, true
		f.TextFragments = []*gitdiff.TextFragment{frag}
	case 4:
		f.IsNew, f.OldName, f.NewMode = true, "", 0o100644
	case 5:
		f.IsDelete, f.NewName, f.OldMode = true, "", 0o100644
		f.TextFragments = []*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "x\n"}}})}
	}
	return f
}

// C08_roundtrip names of 1..3 (4) arbitrary bytes in every position: a mode
// change (only the diff --git line), a modification, a rename, a copy with
// changes, a new and a deleted file.
func C08_roundtrip() {
	name := path("name", 1+sym.Choose("len", pick(3, 4)))
	checkRoundTrip(nameFile(sym.Choose("kind", 6), name, "o"))
}

// C08_written names of 1..2 (3) arbitrary bytes around fixed text are written
// as Git quotes them on every line of the header.
func C08_written() {
	name := []string{"", "d/", "a\\", "e "}[sym.Choose("pre", 4)] + path("name", 1+sym.Choose("len", pick(2, 3)))
	k := sym.Choose("kind", 6)
	a, b := name, name
	lines := []string{"old mode 100644", "new mode 100755"}
	ab := func() []string { return []string{"--- " + gitQuote("a/"+a, true), "+++ " + gitQuote("b/"+b, true)} }
	switch k {
	case 1:
		lines = ab()
	case 2:
		b = "o"
		lines = []string{"rename from " + gitQuote(name, true), "rename to o"}
	case 3:
		a = "o"
		lines = append([]string{"copy from o", "copy to " + gitQuote(name, true)}, ab()...)
	case 4:
		lines = []string{"new file mode 100644"}
	case 5:
		lines = []string{"deleted file mode 100644", "--- " + gitQuote("a/"+name, true), "+++ /dev/null"}
	}
	want := "diff --git " + gitQuote("a/"+a, true) + " " + gitQuote("b/"+b, true) + "\n"
	for _, l := range lines {
		want += l + "\n"
	}
	got := nameFile(k, name, "o").String()
	if i := strings.Index(got, "@@ -"); i > 0 && (k == 1 || k == 3 || k == 5) {
		got = got[:i]
	}
	sym.Assert(got == want, "a name is not written as Git writes it")
}

// C08_two_names renames and copies between two names of one or two arbitrary
// bytes.
func C08_two_names() {
	a := path("a", 1+sym.Choose("alen", 2))
	b := path("b", 1+sym.Choose("blen", pick(1, 2)))
	checkRoundTrip(nameFile(2+sym.Choose("kind", 2), a, b))
}

// C08_longer a path of several components with spaces and quotes around an
// arbitrary byte or two.
func C08_longer() {
	pre := []string{"dir/", "a b/c ", "b/", "\"", "x b/x", "a/b/", "\\", "\xc3\xa9/"}[sym.Choose("pre", 8)]
	post := []string{"", "/z", " b/z", "\\", "\" \"", "\xff", "\\\"", " "}[sym.Choose("post", 8)]
	mid := path("mid", 1+sym.Choose("n", 2))
	checkRoundTrip(nameFile(sym.Choose("kind", 6), pre+mid+post, "o"))
}

// C08_git names of 1..2 (3) arbitrary bytes around fixed text, as Git quotes
// them with and without core.quotepath, in every header position.
func C08_git() {
	name := []string{"", "d/", "a\\"}[sym.Choose("pre", 3)] + path("name", 1+sym.Choose("len", pick(2, 3)))
	qp := sym.Choose("quotepath", 2) == 1
	q := func(prefix string) string { return gitQuote(prefix+name, qp) }
	tab := ""
	if strings.IndexByte(name, ' ') >= 0 && q("") == name {
		tab = "\t" // Git ends such names with a tab on --- and +++ lines
	}
	hunk := "@@ -1 +1 @@\n-x\n+y\n"
	var p string
	want := nameFile(0, name, "o")
	k := sym.Choose("kind", 6)
	switch k {
	case 0:
		p = "diff --git " + q("a/") + " " + q("b/") + "\nold mode 100644\nnew mode 100755\n"
	case 1:
		p = "diff --git " + q("a/") + " " + q("b/") + "\n--- " + q("a/") + tab + "\n+++ " + q("b/") + tab + "\n" + hunk
	case 2:
		p = "diff --git " + q("a/") + " b/o\nrename from " + q("") + "\nrename to o\n"
	case 3:
		p = "diff --git a/o " + q("b/") + "\ncopy from o\ncopy to " + q("") + "\n--- a/o\n+++ " + q("b/") + tab + "\n" + hunk
	case 4:
		p = "diff --git " + q("a/") + " " + q("b/") + "\nnew file mode 100644\n"
	case 5:
		p = "diff --git " + q("a/") + " " + q("b/") + "\ndeleted file mode 100644\n--- " + q("a/") + tab + "\n+++ /dev/null\n@@ -1 +0,0 @@\n-x\n"
	}
	want = nameFile(k, name, "o")
	files, _, err := gitdiff.Parse(strings.NewReader(p))
	sym.Assert(err == nil && len(files) == 1, "a header as Git writes it is rejected")
	f := files[0]
	sym.Assert(f.OldName == want.OldName, "wrong old name")
	sym.Assert(f.NewName == want.NewName, "wrong new name")
	sym.Assert(f.IsNew == want.IsNew && f.IsDelete == want.IsDelete && f.IsCopy == want.IsCopy && f.IsRename == want.IsRename, "wrong kind")
}

// C08_escapes a quoted name with one escape of an arbitrary character or an
// octal escape of three arbitrary digits: exactly what Git decodes.
func C08_escapes() {
	var esc, want string
	ok := true
	if sym.Choose("octal", 2) == 0 {
		c := sym.Byte("c")
		esc = "\\" + string([]byte{c})
		switch c {
		case 'a':
			want = "\a"
		case 'b':
			want = "\b"
		case 'f':
			want = "\f"
		case 'n':
			want = "\n"
		case 'r':
			want = "\r"
		case 't':
			want = "\t"
		case 'v':
			want = "\v"
		case '"', '\\':
			want = string([]byte{c})
		default:
			ok = false
		}
	} else {
		d := sym.Bytes("d", 3)
		esc = "\\" + string(d)
		ok = d[0] >= '0' && d[0] <= '3' && d[1] >= '0' && d[1] <= '7' && d[2] >= '0' && d[2] <= '7'
		sym.Assume(d[0] >= '0' && d[0] <= '7')
		if ok {
			want = string([]byte{(d[0]-'0')<<6 | (d[1]-'0')<<3 | (d[2] - '0')})
		}
	}
	p := "diff --git a/x b/x\nrename from \"p" + esc + "q\"\nrename to y\n"
	files, _, err := gitdiff.Parse(strings.NewReader(p))
	if ok {
		sym.Assert(err == nil && len(files) == 1, "a quoted name is rejected")
		sym.Assert(files[0].OldName == "p"+want+"q", "an escape is decoded wrongly")
	} else {
		sym.Assert(err != nil, "a name with an invalid escape is accepted")
	}
}

// C08_separator the two names of a diff --git line of 1..3 (4) arbitrary
// bytes, equal or different in one byte, each quoted or not, with any tree
// prefixes of one byte, separated by a space or a tab (or up to three of them
// after a quoted name).
func C08_separator() {
	n := path("name", 1+sym.Choose("len", pick(3, 4)))
	for i := 0; i < len(n); i++ {
		c := n[i]
		sym.Assume(sym.Not(sym.Or(c == ' ', sym.And(c >= 9, c <= 13))))
		sym.Assume(sym.And(c != '"', c != '\\'))
	}
	m, same := n, true
	if sym.Choose("differ", 2) == 1 {
		b := []byte(n)
		c := sym.Byte("other")
		sym.Assume(c != 0 && c != '/' && c != '"' && c != '\\' && !isWhite(c))
		at := sym.Choose("at", len(b))
		same = b[at] == c
		b[at] = c
		m = string(b)
	}
	prefix := func(name string) string {
		c := sym.Byte(name)
		sym.Assume(c > ' ' && c < 0x7f && c != '/' && c != '"' && c != '\\')
		return string([]byte{c}) + "/"
	}
	a, b := prefix("p")+n, prefix("q")+m
	k := sym.Choose("quoted", 4)
	sep := []string{" ", "\t", "  ", " \t ", "\t\t"}[sym.Choose("sep", 5)]
	sym.Assume(len(sep) == 1 || k&1 == 1)
	if k&1 == 1 {
		a = "\"" + a + "\""
	}
	if k&2 == 2 {
		b = "\"" + b + "\""
	}
	p := "diff --git " + a + sep + b + "\nold mode 100644\nnew mode 100755\n"
	files, _, err := gitdiff.Parse(strings.NewReader(p))
	if !same {
		sym.Assert(err != nil, "a file without a name is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a header is rejected")
	sym.Assert(files[0].OldName == n && files[0].NewName == n, "wrong name")
}

// C08_mixed a diff --git line with a quoted and an unquoted name of 1..3 (4) arbitrary
// bytes, blanks at any place included, equal or one with a blank more at its end: the
// unquoted one is taken as it stands.
func C08_mixed() {
	n := path("name", 1+sym.Choose("len", pick(3, 4)))
	for i := 0; i < len(n); i++ {
		sym.Assume(sym.And(n[i] != '\n', sym.And(n[i] != '"', n[i] != '\\')))
	}
	m := n
	differ := sym.Choose("differ", 4)
	switch differ {
	case 1:
		m = n + " "
	case 2:
		m = n + "\t"
	case 3:
		m = " " + n
	}
	sep := []string{" ", "\t", "  "}[sym.Choose("sep", 3)]
	a, b := "\"a/"+n+"\"", "b/"+m
	if sym.Choose("second", 2) == 1 {
		sym.Assume(len(sep) == 1)
		a, b = "a/"+m, "\"b/"+n+"\""
	}
	files, _, err := gitdiff.Parse(strings.NewReader("diff --git " + a + sep + b + "\nold mode 100644\nnew mode 100755\n"))
	if differ > 0 {
		sym.Assert(err != nil, "names that differ in a blank are taken as one")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a header is rejected")
	sym.Assert(files[0].OldName == n && files[0].NewName == n, "wrong name")
}

// C08_special names that look like something else in a patch (/dev/null behind a
// directory, prefixes, other header lines, numbers), one byte of them arbitrary or
// none, in every position.
func C08_special() {
	names := []string{"dev/null", "x/dev/null", "a", "b", "a/b", "b/b/b", "a/x b/x", "--- a/x", "+++ b/x", "@@ -1 +1 @@", "diff --git a/x b/x", "old mode 1", "rename from x", "null", "1970-01-01 00:00:00 +0000", ".", "..", "Binary files a/x and b/x differ", "100%", "x..y", "\\ No newline"}
	b := []byte(names[sym.Choose("name", len(names))])
	if at := sym.Choose("at", 32) - 1; at >= 0 {
		if at >= len(b) {
			return
		}
		c := sym.Byte("c")
		sym.Assume(c != 0 && c != '/')
		b[at] = c
	}
	kind := sym.Choose("kind", 6)
	f := nameFile(kind, string(b), "o")
	checkRoundTrip(f)
	if kind == 1 && b[0] != '"' && gitQuote(string(b), false) == string(b) {
		// as Git writes it
		p := "diff --git a/" + string(b) + " b/" + string(b) + "\n--- a/" + string(b) + "\n+++ b/" + string(b) + "\n" + tradHunk
		got, err := parseOne(p)
		sym.Assert(err == nil && got.OldName == string(b) && got.NewName == string(b) && !got.IsNew && !got.IsDelete, "a name is not taken literally")
	}
}
