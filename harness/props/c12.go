package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

const tradHunk = "@@ -1 +1 @@\n-a\n+b\n"

// afterName is what may follow a name: nothing, or a tab and n arbitrary bytes.
func afterName(name string, n int) string {
	if sym.Choose(name+".tab", 2) == 0 {
		return ""
	}
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '\n')
	}
	return "\t" + s
}

// C12_names old and new names of 1..4 (6) and 1..3 (5) arbitrary bytes without
// tab, newline, NUL, or leading quote, each with or without a tab and two
// arbitrary bytes after it.
func C12_names() {
	a := tabName("old", 1+sym.Choose("oldlen", pick(4, 6)))
	b := tabName("new", 1+sym.Choose("newlen", pick(3, 5)))
	sym.Assume(a[0] != '"')
	sym.Assume(b[0] != '"')
	f, err := parseOne("--- " + a + afterName("oldtime", 2) + "\n+++ " + b + afterName("newtime", 2) + "\n" + tradHunk)
	sym.Assert(err == nil, "a traditional header is rejected")
	n := b
	if strings.HasPrefix(b, a) {
		n = a
	}
	assertSameFile(f, &gitdiff.File{OldName: n, NewName: n, TextFragments: []*gitdiff.TextFragment{oneFrag(1, 1)}})
}

// C12_prefix names that share a prefix around an arbitrary byte.
func C12_prefix() {
	c := tabName("c", 1)
	names := []string{"/dev/null" + c, "/dev/nul", c + "/dev/null", "f" + c, "f", "f" + c + "~", "dir/f" + c, "f" + c + c, "f.orig", "f" + c + "/g", c + "f"}
	a, b := names[sym.Choose("a", len(names))], names[sym.Choose("b", len(names))]
	sym.Assume(a[0] != '"' && b[0] != '"')
	f, err := parseOne("--- " + a + "\n+++ " + b + "\n" + tradHunk)
	sym.Assert(err == nil, "a traditional header is rejected")
	n := b
	if strings.HasPrefix(b, a) {
		n = a
	}
	sym.Assert(f.OldName == n && f.NewName == n && !f.IsNew && !f.IsDelete, "wrong name")
}

// C12_quoted names in Git's quotes, of 1..2 arbitrary bytes, followed by
// nothing or a tab.
func C12_quoted() {
	a, b := path("old", 1+sym.Choose("oldlen", 2)), path("new", 1)
	f, err := parseOne("--- " + gitQuote(a, true) + afterName("t", 1) + "\n+++ " + gitQuote(b, false) + "\n" + tradHunk)
	sym.Assert(err == nil, "a quoted traditional header is rejected")
	n := b
	if strings.HasPrefix(b, a) {
		n = a
	}
	sym.Assert(f.OldName == n && f.NewName == n && !f.IsNew && !f.IsDelete, "wrong name")
}

// C12_null /dev/null on one side, a name of 1..3 arbitrary bytes on the other,
// one of the bytes of /dev/null arbitrary.
func C12_null() {
	n := tabName("name", 1+sym.Choose("len", 3))
	sym.Assume(n[0] != '"')
	b := []byte("/dev/null")
	at := sym.Choose("at", len(b))
	orig := b[at]
	b[at] = sym.Byte("c")
	sym.Assume(b[at] != '\n' && b[at] != '\t' && b[at] != '/' || b[at] == orig)
	if at == 0 {
		sym.Assume(b[at] != '"')
	}
	isNull := b[at] == orig
	null := string(b)
	after := afterName("t", 1)
	if sym.Choose("side", 2) == 0 {
		f, err := parseOne("--- " + null + after + "\n+++ " + n + "\n@@ -0,0 +1 @@\n+b\n")
		sym.Assert(err == nil, "a traditional header is rejected")
		if isNull {
			sym.Assert(f.IsNew && !f.IsDelete && f.OldName == "" && f.NewName == n, "not a created file")
		} else {
			sym.Assert(!f.IsNew && !f.IsDelete && f.OldName == n && f.NewName == n, "wrong name")
		}
	} else {
		f, err := parseOne("--- " + n + "\n+++ " + null + after + "\n@@ -1 +0,0 @@\n-a\n")
		sym.Assert(err == nil, "a traditional header is rejected")
		if isNull {
			sym.Assert(f.IsDelete && !f.IsNew && f.OldName == n && f.NewName == "", "not a deleted file")
		} else if strings.HasPrefix(null, n) {
			sym.Assert(!f.IsNew && !f.IsDelete && f.OldName == n && f.NewName == n, "wrong name")
		} else {
			sym.Assert(!f.IsNew && !f.IsDelete && f.OldName == null && f.NewName == null, "wrong name")
		}
	}
}

func digits(s string) (v int, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	return v, true
}

// refEpoch tells whether s is a timestamp for the epoch, by the rules of Git's
// has_epoch_timestamp.
func refEpoch(s string) bool {
	days := 0
	switch {
	case strings.HasPrefix(s, "1970-01-01 "):
	case strings.HasPrefix(s, "1969-12-31 "):
		days = -1
	default:
		return false
	}
	s = s[11:]
	if len(s) < 8 || s[2] != ':' || s[5] != ':' || s[6:8] != "00" {
		return false
	}
	h, ok := digits(s[:2])
	m, ok2 := digits(s[3:5])
	if !ok || !ok2 || h > 23 || m > 59 {
		return false
	}
	s = s[8:]
	if len(s) > 0 && s[0] == '.' {
		i := 1
		for i < len(s) && s[i] == '0' {
			i++
		}
		if i == 1 {
			return false
		}
		s = s[i:]
	}
	if len(s) < 6 || s[0] != ' ' || s[1] != '+' && s[1] != '-' {
		return false
	}
	neg := s[1] == '-'
	s = s[2:]
	if s[2] == ':' {
		s = s[:2] + s[3:]
	}
	if len(s) != 4 {
		return false
	}
	zh, ok := digits(s[:2])
	zm, ok2 := digits(s[2:])
	if !ok || !ok2 || zh > 24 || zm > 59 {
		return false
	}
	z := zh*60 + zm
	if neg {
		z = -z
	}
	return days*1440+h*60+m == z
}

// C12_epoch timestamps at the epoch in nine zones, with or without fraction and
// with or without a colon in the zone, one byte at any place arbitrary (no space),
// for one zone also after a second tab (which is no timestamp): on the
// old side the file is created, on the new side deleted, exactly if the time
// is the epoch.
func C12_epoch() {
	z := []int{0, 60, -480, 330, 825, -210, 840, -720, 1439}[sym.Choose("zone", 9)]
	two := func(v int) string { return itoa(v/10) + itoa(v%10) }
	day, t := "1970-01-01", z
	if z < 0 {
		day, t = "1969-12-31", z+1440
	}
	sign, a := "+", z
	if z < 0 {
		sign, a = "-", -z
	}
	ts := day + " " + two(t/60) + ":" + two(t%60) + ":00" + []string{"", ".0", ".000000000"}[sym.Choose("frac", 3)] + " " + sign + two(a/60) + []string{"", ":"}[sym.Choose("colon", 2)] + two(a%60)
	b := []byte(ts)
	at := sym.Choose("at", len(b))
	orig := b[at]
	c := sym.Byte("c")
	sym.Assume(c != '\n' && c != ' ') // the time package skips spaces
	if orig == '.' {
		sym.Assume(c != ',') // accepted instead of a point by the time package
	}
	b[at] = c
	ts = string(b)
	epoch := refEpoch(ts)
	if k := sym.Choose("tabs", 3); k > 0 {
		sym.Assume(z == 0) // one zone is enough
		ts = []string{"", "\t" + ts, "2020\t" + ts}[k]
		epoch = false
	}
	if sym.Choose("side", 2) == 0 {
		f, err := parseOne("--- a\t" + ts + "\n+++ b\t2020-02-03 04:05:06 +0000\n@@ -0,0 +1 @@\n+b\n")
		sym.Assert(err == nil && !f.IsDelete, "a traditional header is rejected")
		sym.Assert(f.IsNew == epoch, "an epoch timestamp is not recognized or something else is")
		if epoch {
			sym.Assert(f.OldName == "" && f.NewName == "b", "wrong names")
		} else {
			sym.Assert(f.OldName == "b" && f.NewName == "b", "wrong names")
		}
	} else {
		f, err := parseOne("--- a\n+++ b\t" + ts + "\n@@ -1 +0,0 @@\n-a\n")
		sym.Assert(err == nil && !f.IsNew, "a traditional header is rejected")
		sym.Assert(f.IsDelete == epoch, "an epoch timestamp is not recognized or something else is")
		if epoch {
			sym.Assert(f.OldName == "a" && f.NewName == "", "wrong names")
		} else {
			sym.Assert(f.OldName == "b" && f.NewName == "b", "wrong names")
		}
	}
}

// C12_lookalike the three lines with one of the first four bytes of one of
// them arbitrary: without all three prefixes there is no file, and the lines
// are text unless a fragment header is left.
func C12_lookalike() {
	lines := [][]byte{[]byte("--- a"), []byte("+++ b"), []byte("@@ -1 +1 @@")}
	l, at := sym.Choose("line", 3), sym.Choose("at", 4)
	orig := lines[l][at]
	lines[l][at] = sym.Byte("c")
	p := string(lines[0]) + "\n" + string(lines[1]) + "\n" + string(lines[2]) + "\n"
	files, pre, err := gitdiff.Parse(strings.NewReader(p + "-a\n+b\n"))
	switch {
	case lines[l][at] == orig:
		sym.Assert(err == nil && len(files) == 1 && pre == "", "a traditional header is not recognized")
	case l < 2:
		sym.Assert(err != nil && len(files) == 0, "a fragment without header is accepted")
	default:
		sym.Assert(err == nil && len(files) == 0 && pre == p+"-a\n+b\n", "text is taken for a header")
	}
}

// C12_short the two name lines followed by a line of 0..7 (10) arbitrary bytes
// (too short for a fragment header) or by the end of input: text.
func C12_short() {
	p := "--- a\n+++ b\n"
	if sym.Choose("eof", 2) == 0 {
		s := sym.String("s", sym.Choose("len", pick(8, 11)))
		sym.Assume(strings.IndexByte(s, '\n') < 0)
		p += s + "\n"
	}
	files, pre, err := gitdiff.Parse(strings.NewReader(p))
	sym.Assert(err == nil && len(files) == 0 && pre == p, "text is taken for a header")
}
