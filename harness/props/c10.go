package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

const binHead = "diff --git a/x b/x\nindex 1..2\nGIT binary patch\n"

// value85 gives Git's values of base85 characters plus one; 0 stands for none
// (as de85 in Git's base85.c).
var value85 = func() (t [256]byte) {
	for i := 0; i < len(gitBase85); i++ {
		t[gitBase85[i]] = byte(i + 1)
	}
	return
}()

// digit85 is value85 as a digit, 0 for other characters.
var digit85 = func() (t [256]byte) {
	for i := 0; i < len(gitBase85); i++ {
		t[gitBase85[i]] = byte(i)
	}
	return
}()

// refData decodes one data line without its newline.
func refData(line string) (data []byte, ok bool) {
	if len(line) < 6 || (len(line)-1)%5 != 0 {
		return nil, false
	}
	n := 0
	switch c := line[0]; {
	case c >= 'A' && c <= 'Z':
		n = int(c-'A') + 1
	case c >= 'a' && c <= 'z':
		n = int(c-'a') + 27
	default:
		return nil, false
	}
	groups := (len(line) - 1) / 5
	if (n+3)/4 != groups {
		return nil, false
	}
	n = sym.Concrete(n)
	good := true
	for g := 0; g < groups; g++ {
		var v uint64
		for _, c := range []byte(line[1+5*g : 6+5*g]) {
			d := value85[c]
			good = sym.And(good, d != 0)
			v = v*85 + uint64(digit85[c])
		}
		good = sym.And(good, v < 1<<32)
		for k := 24; k >= 0 && len(data) < n; k -= 8 {
			data = append(data, byte(v>>uint(k)))
		}
	}
	return data, good
}

// checkData parses a literal fragment that consists of the given line.
func checkData(line string) {
	files, _, err := gitdiff.Parse(strings.NewReader(binHead + "literal 9\n" + line + "\n\n"))
	want, ok := refData(line)
	if !ok {
		sym.Assert(err != nil, "a corrupt data line is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a correct data line is rejected")
	f := files[0].BinaryFragment
	sym.Assert(f != nil && f.Method == gitdiff.BinaryPatchLiteral && f.Size == 9, "wrong method or size")
	sym.Assert(string(f.RawData) == string(want), "a data line is decoded wrongly")
}

// C10_group an arbitrary length character with one or two groups of which one
// is arbitrary.
func C10_group() {
	l := string([]byte{sym.Byte("length")})
	sym.Assume(l != "\n")
	g := sym.String("group", 5)
	for i := 0; i < 5; i++ {
		sym.Assume(g[i] != '\n')
	}
	switch sym.Choose("where", 3) {
	case 0:
		checkData(l + g)
	case 1:
		checkData(l + g + "0A0z0")
	case 2:
		checkData(l + "|NsC0" + g)
	}
}

// C10_line lines of every number of characters 1..80 with an arbitrary length
// character, one arbitrary character at any place.
func C10_line() {
	n := sym.Choose("len", 80)
	l := []byte(string([]byte{sym.Byte("length")}) + repeat("0Zz1~", 16)[:n])
	if n > 0 {
		l[1+sym.Choose("at", n)] = sym.Byte("c")
	}
	for i := range l {
		sym.Assume(l[i] != '\n')
	}
	checkData(string(l))
}

// C10_lines_together two data lines of 1..2 groups each, every length letter,
// one arbitrary character in each (at two places, or any).
func C10_lines_together() {
	mk := func(name string) string {
		g := 1 + sym.Choose(name+".groups", 2)
		n := 4*g - sym.Choose(name+".short", 4)
		l := []byte(string([]byte{'A' + byte(n) - 1}) + repeat("0Zz1~", g))
		l[1+5*(g-1)+sym.Choose(name+".at", pick(2, 5))*3%5] = sym.Byte(name)
		for i := range l {
			sym.Assume(l[i] != '\n')
		}
		return string(l)
	}
	a, b := mk("a"), mk("b")
	files, _, err := gitdiff.Parse(strings.NewReader(binHead + "delta 9\n" + a + "\n" + b + "\n\n"))
	wa, oka := refData(a)
	wb, okb := refData(b)
	if !sym.And(oka, okb) {
		sym.Assert(err != nil, "a corrupt data line is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "correct data lines are rejected")
	sym.Assert(string(files[0].BinaryFragment.RawData) == string(wa)+string(wb), "data lines are decoded wrongly")
}

// refSize is the value of a decimal number below 2^63.
func refSize(s string) (int64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		d := uint64(s[i] - '0')
		if d > 9 || v > 922337203685477580 || v == 922337203685477580 && d > 7 {
			return 0, false
		}
		v = v*10 + d
	}
	return int64(v), true
}

// C10_size size texts of 0..3 arbitrary bytes, and of 18..20 digits with an
// arbitrary byte at any place (explicit plus signs and negative zeros excepted).
func C10_size() {
	var s string
	if sym.Choose("long", 2) == 0 {
		s = sym.String("s", sym.Choose("len", pick(4, 5)))
	} else {
		b := []byte([]string{"922337203685477580", "9223372036854775807", "9223372036854775808", "18446744073709551617", "00000000000000000009"}[sym.Choose("base", 5)])
		b[sym.Choose("at", len(b))] = sym.Byte("c")
		s = string(b)
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '\n')
	}
	if len(s) > 0 {
		sym.Assume(s[0] != '+')
	}
	if len(s) > 1 && s[0] == '-' {
		sym.Assume(s[1] != '0') // -0 is a size, too
	}
	m := sym.Choose("method", 2)
	p := binHead
	second := sym.Choose("second", 2) == 1
	if second {
		p += "delta 1\nA00000\n\n"
	}
	files, _, err := gitdiff.Parse(strings.NewReader(p + []string{"delta ", "literal "}[m] + s + "\nA00000\n\n"))
	want, ok := refSize(s)
	if !ok {
		sym.Assert(err != nil, "a bad size is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a good size is rejected")
	f := files[0].BinaryFragment
	if second {
		f = files[0].ReverseBinaryFragment
	}
	sym.Assert(f != nil && f.Method == binMethods[m] && f.Size == want && string(f.RawData) == "\x00", "wrong fragment")
}

// C10_keyword fragment headers whose method has one arbitrary character at any
// place, or an arbitrary first byte of the line: only delta and literal are
// methods.
func C10_keyword() {
	b := []byte([]string{"delta 3", "literal 3"}[sym.Choose("method", 2)])
	b[sym.Choose("at", len(b)-2)] = sym.Byte("c")
	l := string(b)
	for i := range b {
		sym.Assume(b[i] != '\n')
	}
	_, _, err := gitdiff.Parse(strings.NewReader(binHead + l + "\nA00000\n\n"))
	sym.Assert((err == nil) == sym.Or(l == "delta 3", l == "literal 3"), "an unknown method is accepted or a known one rejected")
}

// refBinary is the meaning of the lines after a GIT binary patch line.
func refBinary(lines []string) (fwd, rev *gitdiff.BinaryFragment, ok bool) {
	for k := 0; k < 2; k++ {
		if len(lines) == 0 {
			return fwd, nil, k == 1
		}
		f := &gitdiff.BinaryFragment{}
		var num string
		switch l := strings.TrimSuffix(lines[0], "\n"); {
		case strings.HasPrefix(l, "delta "):
			f.Method, num = gitdiff.BinaryPatchDelta, l[6:]
		case strings.HasPrefix(l, "literal "):
			f.Method, num = gitdiff.BinaryPatchLiteral, l[8:]
		default:
			return fwd, nil, k == 1
		}
		if f.Size, ok = refSize(num); !ok {
			return nil, nil, false
		}
		lines = lines[1:]
		for {
			if len(lines) == 0 {
				return nil, nil, false
			}
			l := lines[0]
			lines = lines[1:]
			if l == "\n" {
				break
			}
			if l[len(l)-1] != '\n' {
				return nil, nil, false
			}
			d, ok := refData(l[:len(l)-1])
			if !ok {
				return nil, nil, false
			}
			f.RawData = append(f.RawData, d...)
		}
		if k == 0 {
			fwd = f
		} else {
			rev = f
		}
	}
	return fwd, rev, true
}

// C10_structure up to 4 (6) lines after the marker, each one of ten (headers,
// good and corrupt data lines, blank lines, other text), the last one with or
// without a newline.
func C10_structure() {
	texts := []string{"\n", "literal 3\n", "A00000\n", "delta 2\n", "A~~~~~\n", "literal\n", "delta -1\n", "junk\n", "A0000\n", "EZZZZZ\n"}
	n := sym.Choose("lines", pick(5, 7))
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, texts[sym.Choose("l"+itoa(i), len(texts))])
	}
	if n > 0 && sym.Choose("cut", 2) == 1 {
		l := lines[n-1]
		lines[n-1] = l[:len(l)-1]
		if len(l) == 1 {
			lines = lines[:n-1]
		}
	}
	files, _, err := gitdiff.Parse(strings.NewReader(binHead + strings.Join(lines, "")))
	fwd, rev, ok := refBinary(lines)
	if !ok {
		sym.Assert(err != nil, "a corrupt binary patch is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "a correct binary patch is rejected")
	f := files[0]
	sym.Assert(f.IsBinary && sameBin(f.BinaryFragment, fwd) && sameBin(f.ReverseBinaryFragment, rev), "a binary patch is parsed wrongly")
}

// C10_marker the binary markers with one arbitrary character at any place:
// only the three exact forms make a file binary.
func C10_marker() {
	k := sym.Choose("kind", 3)
	b := []byte([]string{"GIT binary patch", "Binary files a/x and b/x differ", "Files a/x and b/x differ"}[k])
	at := sym.Choose("at", len(b))
	orig := b[at]
	b[at] = sym.Byte("c")
	l := string(b)
	sym.Assume(b[at] != '\n')
	files, _, err := gitdiff.Parse(strings.NewReader("diff --git a/x b/x\nindex 1..2\n" + l + "\ndelta 1\nA00000\n\n"))
	sym.Assert(err == nil && len(files) == 1, "a patch is rejected")
	f := files[0]
	is := b[at] == orig
	if k > 0 && at >= len(b)-len("a/x and b/x differ") && at < len(b)-len(" differ") {
		is = true // the names between are free
	}
	sym.Assert(f.IsBinary == is, "a binary marker is not recognized or something else is")
	sym.Assert((f.BinaryFragment != nil) == (is && k == 0), "wrong binary data")
}

// C10_method fragment headers whose method is delta or literal with up to one
// byte removed and up to two arbitrary bytes put in at any place: only delta
// and literal are methods, whatever comes after the marker else is missing
// data.
func C10_method() {
	w := []string{"delta", "literal"}[sym.Choose("method", 2)]
	at := sym.Choose("at", len(w)+1)
	cut := sym.Choose("cut", 2)
	if at+cut > len(w) {
		return
	}
	w = w[:at] + sym.String("in", sym.Choose("len", 3)) + w[at+cut:]
	for i := range w {
		sym.Assume(w[i] != '\n' && w[i] != ' ')
	}
	files, _, err := gitdiff.Parse(strings.NewReader(binHead + w + " 3\nA00000\n\n"))
	sym.Assert((err == nil) == sym.Or(w == "delta", w == "literal"), "an unknown method is accepted or a known one rejected")
	if err == nil {
		m := gitdiff.BinaryPatchDelta
		if w == "literal" {
			m = gitdiff.BinaryPatchLiteral
		}
		sym.Assert(len(files) == 1 && files[0].BinaryFragment.Method == m, "wrong method")
	}
}

// C10_no_blank one or two good data lines of the forward or of the reverse
// fragment without the blank line after them, directly followed by the start
// of another file, a traditional header, a fragment header, the other
// fragment, a mail signature or a mail separator with one arbitrary character
// at any place (thorough; quick: at the first ten): the data is not complete.
func C10_no_blank() {
	nexts := []string{
		"diff --git a/g b/g\n", "--- a/f\n", "@@ -1 +1 @@\n", "literal 3\n", "delta 3\n",
		"GIT binary patch\n", "index 1..2\n", "-- \n", "From 1 Mon Sep 17 00:00:00 2001\n", "\\ No newline at end of file\n",
		"Binary files a/x and b/x differ\n", "\r\n", " \n",
	}
	nx := []byte(nexts[sym.Choose("next", len(nexts))])
	at := len(nx) - 1
	if at > pick(10, 80) {
		at = pick(10, 80)
	}
	if k := sym.Choose("at", at+1); k < at {
		nx[k] = sym.Byte("c")
		sym.Assume(nx[k] != '\n')
	}
	text := binHead
	if sym.Choose("reverse", 2) == 1 {
		text += "delta 3\nA00000\n\n"
	}
	text += "literal 3\n" + repeat("A00000\n", 1+sym.Choose("good", 2)) + string(nx)
	if _, ok := refData(string(nx[:len(nx)-1])); ok {
		return
	}
	text += []string{"", "\n", "new file mode 100644\n", "A00000\n\n", "+++ b/f\n@@ -1 +1 @@\n-a\n+b\n"}[sym.Choose("rest", 5)]
	_, _, err := gitdiff.Parse(strings.NewReader(text))
	sym.Assert(err != nil, "binary data without its end is accepted")
}
