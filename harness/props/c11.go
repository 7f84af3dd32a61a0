package props

import (
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

func parseOne(p string) (*gitdiff.File, error) {
	files, pre, err := gitdiff.Parse(strings.NewReader(p))
	if err != nil {
		sym.Assert(len(files) == 0, "files are returned with an error in the first one")
		return nil, err
	}
	sym.Assert(len(files) == 1 && pre == "", "one file with nothing before it is not parsed as such")
	return files[0], nil
}

func isWhite(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }

// refMode is the value of an octal number below 2^31 between white space.
func refMode(s string) (os.FileMode, bool) {
	for len(s) > 0 && isWhite(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && isWhite(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '7' {
			return 0, false
		}
		v = v<<3 | uint64(s[i]-'0')
		if v >= 1<<31 {
			return 0, false
		}
	}
	return os.FileMode(v), len(s) > 0
}

// C11_mode each mode line (old, new, deleted, new file, index) with a mode
// text of 0..5 (7) arbitrary bytes below 0x80, or of 6 or 11 digits with an
// arbitrary byte at any place.
func C11_mode() {
	var m string
	if sym.Choose("long", 2) == 0 {
		m = sym.String("m", sym.Choose("len", pick(6, 8)))
	} else {
		b := []byte([]string{"100644", "17777777777", "00000100755"}[sym.Choose("base", 3)])
		b[sym.Choose("at", len(b))] = sym.Byte("c")
		m = string(b)
	}
	for i := 0; i < len(m); i++ {
		sym.Assume(sym.And(m[i] != '\n', m[i] < 0x80))
	}
	v, ok := refMode(m)
	want := &gitdiff.File{OldName: "x", NewName: "x"}
	var l string
	switch sym.Choose("kind", 5) {
	case 0:
		l = "old mode " + m
		want.OldMode = v
	case 1:
		l = "new mode " + m
		want.NewMode = v
	case 2:
		l = "deleted file mode " + m
		want.OldMode, want.IsDelete, want.NewName = v, true, ""
	case 3:
		l = "new file mode " + m
		want.NewMode, want.IsNew, want.OldName = v, true, ""
	case 4:
		l = "index a..b " + m
		want.OldMode, want.OldOIDPrefix, want.NewOIDPrefix = v, "a", "b"
	}
	f, err := parseOne("diff --git a/x b/x\n" + l + "\n")
	if !ok {
		sym.Assert(err != nil, "a malformed mode is accepted")
		return
	}
	sym.Assert(err == nil, "a mode is rejected")
	assertSameFile(f, want)
}

// C11_score similarity and dissimilarity lines with 0..5 (7) arbitrary bytes.
func C11_score() {
	s := sym.String("s", sym.Choose("len", pick(6, 8)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\n')
	}
	head := []string{"similarity index ", "dissimilarity index "}[sym.Choose("kind", 2)]
	f, err := parseOne("diff --git a/x b/x\nold mode 1\n" + head + s + "\nnew mode 2\n")
	n := len(s)
	if n > 0 && s[n-1] == '%' {
		n--
	}
	v, ok := 0, n > 0
	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			ok = false
			break
		}
		v = v*10 + int(s[i]-'0')
	}
	if !ok {
		sym.Assert(err != nil, "a malformed score is accepted")
		return
	}
	sym.Assert(err == nil, "a score is rejected")
	if v > 100 {
		v = 0 // as Git, ignore it
	}
	assertSameFile(f, &gitdiff.File{OldName: "x", NewName: "x", OldMode: 1, NewMode: 2, Score: v})
}

// C11_index index lines of 0..6 (9) arbitrary bytes, and longer ones with two
// arbitrary bytes.
func C11_index() {
	var s string
	if sym.Choose("long", 2) == 0 {
		s = sym.String("s", sym.Choose("len", pick(7, 10)))
	} else {
		b := []byte([]string{"12345..abcdef 100644", "a..b..c  7", "0000000000000000000000000000000000000000..1", "a.b...c d e"}[sym.Choose("base", 4)])
		at := sym.Choose("at", len(b)-1)
		b[at], b[at+1] = sym.Byte("c"), sym.Byte("d")
		s = string(b)
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != '\n', s[i] < 0x80))
	}
	f, err := parseOne("diff --git a/x b/x\nindex " + s + "\n")
	oids, mode := s, ""
	sp := strings.IndexByte(s, ' ')
	if sp >= 0 {
		oids, mode = s[:sp], s[sp+1:]
	}
	dots := strings.Index(oids, "..")
	want := &gitdiff.File{OldName: "x", NewName: "x"}
	ok := dots >= 0
	if ok {
		want.OldOIDPrefix, want.NewOIDPrefix = oids[:dots], oids[dots+2:]
		if sp >= 0 {
			want.OldMode, ok = refMode(mode)
		}
	}
	if !ok {
		sym.Assert(err != nil, "a malformed index line is accepted")
		return
	}
	sym.Assert(err == nil, "an index line is rejected")
	assertSameFile(f, want)
}

// plainName is a name for a rename or copy line of n arbitrary bytes without
// newline or NUL that does not need cleaning.
func plainName(name string, n int) string {
	s := path(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '\n')
	}
	return s
}

// tabName is a name for a --- or +++ line of n arbitrary bytes without
// newline, tab or NUL that does not start with a quote or need cleaning.
func tabName(name string, n int) string {
	s := path(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '\n' && s[i] != '\t')
	}
	return s
}

// C11_names each line that carries a name, with a name of 1..5 (8) arbitrary
// bytes (tabs included in rename and copy lines), and arbitrary text after the
// tab that may end --- and +++ lines.
func C11_names() {
	kind := sym.Choose("kind", 6)
	n := plainName("name", 1+sym.Choose("len", pick(5, 8)))
	if kind > 3 {
		for i := 0; i < len(n); i++ {
			sym.Assume(n[i] != '\t')
		}
	}
	sym.Assume(n[0] != '"')
	sym.Assume(n[0] != '/')
	tab := ""
	if sym.Choose("tab", 2) == 1 {
		c := sym.String("after", 1)
		sym.Assume(c != "\n")
		tab = "\t" + c
	}
	want := &gitdiff.File{OldName: n, NewName: "y"}
	var p string
	switch kind {
	case 0:
		p = "rename from " + n + "\nrename to y\n"
		want.IsRename = true
	case 1:
		p = "rename old y\nrename new " + n + "\n"
		want.IsRename, want.OldName, want.NewName = true, "y", n
	case 2:
		p = "copy from " + n + "\ncopy to y\n"
		want.IsCopy = true
	case 3:
		p = "copy from y\ncopy to " + n + "\n"
		want.IsCopy, want.OldName, want.NewName = true, "y", n
	case 4:
		p = "--- a/" + n + tab + "\n+++ b/y\n@@ -1 +1 @@\n-a\n+b\n"
		want.TextFragments = []*gitdiff.TextFragment{oneFrag(1, 1)}
	case 5:
		p = "--- a/y\n+++ long-prefix/" + n + tab + "\n@@ -1 +1 @@\n-a\n+b\n"
		want.OldName, want.NewName = "y", n
		want.TextFragments = []*gitdiff.TextFragment{oneFrag(1, 1)}
	}
	f, err := parseOne("diff --git a/p b/q\n" + p)
	sym.Assert(err == nil, "a name is rejected")
	assertSameFile(f, want)
}

func oneFrag(oldPos, newPos int64) *gitdiff.TextFragment {
	return fill(&gitdiff.TextFragment{OldPosition: oldPos, NewPosition: newPos, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: "b\n"}}})
}

// C11_combined a diff --git line with an arbitrary one-byte name or two
// different ones, then any combination of mode lines (six), a similarity line,
// rename or copy lines (complete or half), an index line, an old name line and
// a new name line (none, a name of one arbitrary byte, /dev/null with both
// lines present): the File is
// exactly what the lines say, and contradictions are errors.
func C11_combined() {
	letter := func(name string) string {
		c := sym.Byte(name)
		sym.Assume(c > ' ' && c < 0x7f && c != '/' && c != '"' && c != '\\')
		return string([]byte{c})
	}
	n1 := letter("n1")
	n2, def := n1, n1
	if sym.Choose("two", 2) == 1 {
		n2, def = letter("n2"), ""
		if n1 == n2 {
			def = n1
		}
	}
	p := "diff --git a/" + n1 + " b/" + n2 + "\n"
	f := &gitdiff.File{}
	old, new := "", "" // names seen so far
	switch sym.Choose("mode", 6) {
	case 1:
		p += "old mode 100644\nnew mode 100755\n"
		f.OldMode, f.NewMode = 0o100644, 0o100755
	case 2:
		p += "new mode 100755\n"
		f.NewMode = 0o100755
	case 3:
		p += "deleted file mode 100644\n"
		f.OldMode, f.IsDelete, old = 0o100644, true, def
	case 4:
		p += "new file mode 100755\n"
		f.NewMode, f.IsNew, new = 0o100755, true, def
	case 5:
		p += "old mode 100755\n"
		f.OldMode = 0o100755
	}
	if sym.Choose("score", 2) == 1 {
		p += "similarity index 90%\n"
		f.Score = 90
	}
	if k := sym.Choose("move", 5); k > 0 {
		sym.Assume(!f.IsNew && !f.IsDelete) // never written by Git
		verb := "rename "
		if k < 3 {
			f.IsRename = true
		} else {
			f.IsCopy = true
			verb = "copy "
		}
		if k != 2 {
			old = letter("from")
			p += verb + "from " + old + "\n"
		}
		if k != 4 {
			new = letter("to")
			p += verb + "to " + new + "\n"
		}
	}
	if sym.Choose("index", 2) == 1 {
		p += "index 12..34\n"
		f.OldOIDPrefix, f.NewOIDPrefix = "12", "34"
	}
	bad := false
	k1, k2 := sym.Choose("---", 3), sym.Choose("+++", 3)
	sym.Assume(k1+k2 != 2 || k1 == k2) // /dev/null with only one of the lines
	switch k1 {
	case 1:
		n := letter("---")
		p += "--- a/" + n + "\n"
		if f.IsNew || old != "" && old != n {
			bad = true // an old name for a new file, or two old names
		}
		old = n
	case 2:
		p += "--- /dev/null\n"
		if f.IsDelete || old != "" {
			bad = true
		}
		f.IsNew = true
	}
	switch k2 {
	case 1:
		n := letter("+++")
		p += "+++ b/" + n + "\n"
		if f.IsDelete || new != "" && new != n {
			bad = true
		}
		new = n
	case 2:
		p += "+++ /dev/null\n"
		if f.IsNew || new != "" {
			bad = true
		}
		f.IsDelete = true
	}
	// names nobody mentions are those of the first line
	if old == "" && new == "" {
		old, new = def, def
		if f.IsNew {
			old = ""
		}
		if f.IsDelete {
			new = ""
		}
	}
	if old == "" && !f.IsNew || new == "" && !f.IsDelete {
		bad = true
	}
	f.OldName, f.NewName = old, new
	files, _, err := gitdiff.Parse(strings.NewReader(p))
	if bad {
		sym.Assert(err != nil, "a contradictory or incomplete header is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a header is rejected")
	assertSameFile(files[0], f)
}

// C11_late file headers of eight kinds (changed, created and deleted by a mode
// line or by /dev/null alone, renamed, copied, mode changed), and one or two more lines
// (modes, scores, index with and without a mode) at any place between or after their
// lines, one digit each arbitrary: each line sets what it states, and the last of a
// kind wins.
func C11_late() {
	kind := sym.Choose("kind", 8)
	f := &gitdiff.File{OldName: "x", NewName: "x"}
	lines := [][]string{
		{"--- a/x\n", "+++ b/x\n"},
		{"new file mode 100640\n", "--- /dev/null\n", "+++ b/x\n"},
		{"--- /dev/null\n", "+++ b/x\n"},
		{"deleted file mode 100640\n", "--- a/x\n", "+++ /dev/null\n"},
		{"--- a/x\n", "+++ /dev/null\n"},
		{"rename from x\n", "rename to y\n", "--- a/x\n", "+++ b/y\n"},
		{"copy from x\n", "copy to y\n"},
		{"old mode 100640\n", "new mode 100640\n"},
	}[kind]
	head := "diff --git a/x b/x\n"
	switch kind {
	case 1, 2:
		f.IsNew, f.OldName = true, ""
	case 3, 4:
		f.IsDelete, f.NewName = true, ""
	case 5, 6:
		head = "diff --git a/x b/y\n"
		f.NewName = "y"
		f.IsRename, f.IsCopy = kind == 5, kind == 6
	}
	type set struct {
		line string
		do   func()
	}
	var all []set
	for i, l := range lines {
		s := set{l, func() {}}
		switch {
		case kind == 1 && i == 0:
			s.do = func() { f.NewMode = 0o100640 }
		case kind == 3 && i == 0:
			s.do = func() { f.OldMode = 0o100640 }
		case kind == 7 && i == 0:
			s.do = func() { f.OldMode = 0o100640 }
		case kind == 7:
			s.do = func() { f.NewMode = 0o100640 }
		}
		all = append(all, s)
	}
	n := 1 + sym.Choose("more", 2)
	for i := 0; i < n; i++ {
		id := itoa(i)
		d := sym.Byte("d" + id)
		sym.Assume(sym.And(d >= '0', d <= '7'))
		c := string([]byte{d})
		v := int(d - '0')
		s := []set{
			{"old mode 10064" + c + "\n", func() { f.OldMode = os.FileMode(0o100640 + v) }},
			{"new mode 10064" + c + "\n", func() { f.NewMode = os.FileMode(0o100640 + v) }},
			{"index " + c + "1.." + c + "2\n", func() { f.OldOIDPrefix, f.NewOIDPrefix = c+"1", c+"2" }},
			{"index " + c + "1.." + c + "2 10064" + c + "\n", func() {
				f.OldOIDPrefix, f.NewOIDPrefix, f.OldMode = c+"1", c+"2", os.FileMode(0o100640+v)
			}},
			{"similarity index 1" + c + "%\n", func() { f.Score = 10 + v }},
			{"dissimilarity index " + c + "%\n", func() { f.Score = v }},
		}[sym.Choose("line"+id, 6)]
		at := sym.Choose("at"+id, len(all)+1)
		all = append(all[:at:at], append([]set{s}, all[at:]...)...)
	}
	text := head
	for _, s := range all {
		text += s.line
		s.do()
	}
	if kind < 6 && kind > 0 && sym.Choose("fragment", 2) == 1 {
		text += []string{"", "@@ -0,0 +1 @@\n+a\n", "@@ -0,0 +1 @@\n+a\n", "@@ -1 +0,0 @@\n-a\n", "@@ -1 +0,0 @@\n-a\n", "@@ -1 +1 @@\n-a\n+b\n"}[kind]
		files, _, err := gitdiff.Parse(strings.NewReader(text))
		sym.Assert(err == nil && len(files) == 1 && len(files[0].TextFragments) == 1, "a header with a fragment is rejected")
		files[0].TextFragments = nil
		assertSameFile(files[0], f)
		return
	}
	files, _, err := gitdiff.Parse(strings.NewReader(text))
	sym.Assert(err == nil && len(files) == 1, "a header is rejected")
	assertSameFile(files[0], f)
}

// C11_keyword every header keyword with an arbitrary byte at any place of it:
// unless it is one of the keywords, the line ends the header and nothing after
// it counts.
func C11_keyword() {
	keys := []string{"old mode 100600", "new mode 100600", "deleted file mode 100600", "new file mode 100600", "similarity index 5%", "dissimilarity index 5%", "index 1..2", "rename from x", "rename to x", "rename old x", "rename new x", "copy from x", "copy to x", "--- a/x", "+++ b/x"}
	lens := []int{9, 9, 18, 14, 17, 20, 6, 12, 10, 11, 11, 10, 8, 4, 4}
	k := sym.Choose("key", len(keys))
	b := []byte(keys[k])
	at := sym.Choose("at", lens[k])
	orig := b[at]
	b[at] = sym.Byte("c")
	sym.Assume(b[at] != orig)
	f, err := parseOne("diff --git a/x b/x\n" + string(b) + "\nold mode 100644\n")
	sym.Assert(err == nil, "text after a header is an error")
	assertSameFile(f, &gitdiff.File{OldName: "x", NewName: "x"})
}

// C11_unknown a line of 0..5 (6) arbitrary bytes, none of them a prefix of a
// header line, ends the header.
func C11_unknown() {
	s := sym.String("s", sym.Choose("len", pick(6, 7)))
	sym.Assume(strings.IndexByte(s, '\n') < 0)
	for _, h := range []string{"@@ -", "--- ", "+++ ", "index"} {
		sym.Assume(!strings.HasPrefix(s, h))
	}
	f, err := parseOne("diff --git a/x b/x\nold mode 100600\n" + s + "\nnew mode 100644\n")
	sym.Assert(err == nil, "text after a header is an error")
	assertSameFile(f, &gitdiff.File{OldName: "x", NewName: "x", OldMode: 0o100600})
}

// C11_content created and deleted files (by a mode line, by /dev/null, or in a
// traditional header) with one or two fragments of every shape of up to two
// lines: old contents of a created file and new contents of a deleted one are
// errors.
func C11_content() {
	var p string
	isNew := sym.Choose("new", 2) == 1
	switch sym.Choose("how", 4) {
	case 0:
		p = "diff --git a/x b/x\n" + map[bool]string{true: "new file mode 100644\n--- /dev/null\n+++ b/x\n", false: "deleted file mode 100644\n--- a/x\n+++ /dev/null\n"}[isNew]
	case 1:
		p = "diff --git a/x b/x\n" + map[bool]string{true: "--- /dev/null\n+++ b/x\n", false: "--- a/x\n+++ /dev/null\n"}[isNew]
	case 2:
		p = map[bool]string{true: "--- /dev/null\n+++ x\n", false: "--- x\n+++ /dev/null\n"}[isNew]
	case 3:
		p = "diff --git a/x b/x\n" + map[bool]string{true: "new file mode 100644\n", false: "deleted file mode 100644\n"}[isNew]
	}
	bad := false
	var want []*gitdiff.TextFragment
	for i, n := 0, 1+sym.Choose("frags", 2); i < n; i++ {
		f := &gitdiff.TextFragment{OldPosition: int64(3 * i), NewPosition: int64(3 * i)}
		for j, m := 0, 1+sym.Choose("lines"+itoa(i), 2); j < m; j++ {
			c := sym.String("l"+itoa(i)+itoa(j), 1)
			sym.Assume(c != "\n")
			f.Lines = append(f.Lines, gitdiff.Line{Op: opOf[sym.Choose("op"+itoa(i)+itoa(j), 3)], Line: c + "\n"})
		}
		fill(f)
		sym.Assume(f.LinesAdded+f.LinesDeleted > 0)
		if f.OldLines > 0 {
			f.OldPosition++
		}
		if f.NewLines > 0 {
			f.NewPosition++
		}
		bad = bad || isNew && f.OldLines > 0 || !isNew && f.NewLines > 0
		p += f.String()
		want = append(want, f)
	}
	f, err := parseOne(p)
	if bad {
		sym.Assert(err != nil, "a created file with old or a deleted file with new contents is accepted")
		return
	}
	sym.Assert(err == nil && f.IsNew == isNew && f.IsDelete == !isNew, "a created or deleted file is rejected")
	sym.Assert(len(f.TextFragments) == len(want), "wrong number of fragments")
	for i := range want {
		sym.Assert(sameFrag(f.TextFragments[i], want[i]), "wrong fragment")
	}
}

// C11_pairs any two header lines of the 13 kinds that are not --- and +++
// lines, in any order, with modes of six digits whose last is arbitrary,
// scores of an arbitrary digit and names and object names of one arbitrary
// byte: each line sets exactly what it states, and the later one wins.
func C11_pairs() {
	const def = "x"
	f := &gitdiff.File{}
	p := "diff --git a/x b/x\n"
	kinds := [2]int{}
	for i := 0; i < 2; i++ {
		id := itoa(i)
		letter := func(n string) string {
			c := sym.Byte(n + id)
			sym.Assume(c > ' ' && c < 0x7f && c != '/' && c != '"' && c != '\\' && c != '.')
			return string([]byte{c})
		}
		octal := func() (string, os.FileMode) {
			d := sym.Byte("mode" + id)
			sym.Assume(d >= '0' && d <= '7')
			return "10064" + string([]byte{d}), os.FileMode(0o100640 | uint32(d-'0'))
		}
		digit := func() (string, int) {
			d := sym.Byte("score" + id)
			sym.Assume(d >= '0' && d <= '9')
			return "4" + string([]byte{d}) + "%", 40 + int(d-'0')
		}
		k := sym.Choose("kind"+id, 14)
		kinds[i] = k
		switch k {
		case 0:
			m, v := octal()
			p += "old mode " + m + "\n"
			f.OldMode = v
		case 1:
			m, v := octal()
			p += "new mode " + m + "\n"
			f.NewMode = v
		case 2:
			m, v := octal()
			p += "deleted file mode " + m + "\n"
			f.OldMode, f.IsDelete, f.OldName = v, true, def
		case 3:
			m, v := octal()
			p += "new file mode " + m + "\n"
			f.NewMode, f.IsNew, f.NewName = v, true, def
		case 4, 5:
			d, v := digit()
			p += []string{"similarity", "dissimilarity"}[k-4] + " index " + d + "\n"
			f.Score = v
		case 6, 7:
			f.OldOIDPrefix, f.NewOIDPrefix = letter("oid"), letter("oid'")
			p += "index " + f.OldOIDPrefix + ".." + f.NewOIDPrefix
			if k == 7 {
				m, v := octal()
				p += " " + m
				f.OldMode = v
			}
			p += "\n"
		case 8, 9, 10:
			n := letter("name")
			p += []string{"copy from ", "rename from ", "rename old "}[k-8] + n + "\n"
			f.OldName = n
		case 11, 12, 13:
			n := letter("name")
			p += []string{"copy to ", "rename to ", "rename new "}[k-11] + n + "\n"
			f.NewName = n
		}
		switch k {
		case 8, 11:
			f.IsCopy = true
		case 9, 10, 12, 13:
			f.IsRename = true
		}
	}
	got, _, err := gitdiff.Parse(strings.NewReader(p))
	// Git never writes these together, so they may be rejected
	odd := f.IsNew && f.IsDelete || (f.IsNew || f.IsDelete) && (f.IsRename || f.IsCopy) || f.IsRename && f.IsCopy
	if odd && err != nil {
		return
	}
	if f.OldName == "" && f.NewName == "" {
		f.OldName, f.NewName = def, def
	}
	if f.OldName == "" && !f.IsNew || f.NewName == "" && !f.IsDelete {
		sym.Assert(err != nil, "half a rename or copy is accepted")
		return
	}
	sym.Assert(err == nil && len(got) == 1, "a header is rejected")
	assertSameFile(got[0], f)
}

// C11_same the name of a rename or copy line and the name of the --- or +++ line of the
// same side, one the other with something before it, after it, or in it, or an arbitrary
// byte changed: an error unless they are the same.
func C11_same() {
	c := path("c", 1)
	sym.Assume(c[0] != '\n' && c[0] != '\t' && c[0] != '"')
	names := []string{"f", c, "d/" + c, c + "/f", "e/d/f", "d/f", "f" + c, "f/" + c, "d/f/" + c, "d", "F", "a/f", "b/f", "f.orig", "d/f~"}
	one, two := names[sym.Choose("one", len(names))], names[sym.Choose("two", len(names))]
	k := sym.Choose("kind", 4)
	p := "diff --git a/x b/x\n" + []string{"rename", "copy"}[k&1]
	if k < 2 {
		p += " from " + one + "\n" + []string{"rename", "copy"}[k&1] + " to y\n--- a/" + two + "\n+++ b/y\n"
	} else {
		p += " from y\n" + []string{"rename", "copy"}[k&1] + " to " + one + "\n--- a/y\n+++ b/" + two + "\n"
	}
	f, err := parseOne(p + tradHunk)
	if one != two {
		sym.Assert(err != nil, "contradicting names are accepted")
		return
	}
	sym.Assert(err == nil, "a header is rejected")
	if k < 2 {
		sym.Assert(f.OldName == one && f.NewName == "y", "wrong names")
	} else {
		sym.Assert(f.OldName == "y" && f.NewName == one, "wrong names")
	}
}
