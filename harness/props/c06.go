package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// splitText cuts s after every newline.
func splitText(s string) []string {
	var lines []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = append(lines, s[start:i+1])
			start = i + 1
		}
	}
	if start < len(s) {
		lines = append(lines, s[start:])
	}
	return lines
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// refNumber is a run of digits at the start of s that fits an int64.
func refNumber(s string) (v int64, rest string, ok bool) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		d := int64(s[i] - '0')
		if v > (1<<63-1-d)/10 {
			return 0, "", false
		}
		v = 10*v + d
		i++
	}
	return v, s[i:], i > 0
}

// refRange is start[,count]; the count defaults to one.
func refRange(s string) (start, n int64, rest string, ok bool) {
	if start, s, ok = refNumber(s); !ok {
		return
	}
	n = 1
	if hasPrefix(s, ",") {
		if n, s, ok = refNumber(s[1:]); !ok {
			return
		}
	}
	return start, n, s, true
}

// refHeader is "@@ -a[,b] +c[,d] @@[comment]".
func refHeader(line string) (*gitdiff.TextFragment, bool) {
	f := &gitdiff.TextFragment{}
	if !hasPrefix(line, "@@ -") {
		return nil, false
	}
	s := line[4:]
	var ok bool
	if f.OldPosition, f.OldLines, s, ok = refRange(s); !ok || !hasPrefix(s, " +") {
		return nil, false
	}
	if f.NewPosition, f.NewLines, s, ok = refRange(s[2:]); !ok || !hasPrefix(s, " @@") {
		return nil, false
	}
	f.Comment = strings.TrimSpace(s[3:])
	return f, true
}

func refMarker(line string) bool { return len(line) >= 12 && hasPrefix(line, "\\ ") }

// refFragments parses the fragments at the start of lines.
func refFragments(lines []string) (frags []*gitdiff.TextFragment, ok bool) {
	for len(lines) > 0 && hasPrefix(lines[0], "@@ -") {
		f, ok := refHeader(lines[0])
		if !ok {
			return nil, false
		}
		lines = lines[1:]
		old, new := f.OldLines, f.NewLines
		changes := false
		for (old > 0 || new > 0) && len(lines) > 0 {
			line := lines[0]
			switch c := line[0]; c {
			case '\n', ' ':
				text := line[1:]
				if c == '\n' {
					text = "\n"
				}
				f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.OpContext, Line: text})
				old--
				new--
			case '-':
				f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.OpDelete, Line: line[1:]})
				old--
				changes = true
			case '+':
				f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.OpAdd, Line: line[1:]})
				new--
				changes = true
			default:
				if !refMarker(line) {
					return nil, false
				}
				refNoNewline(f)
			}
			lines = lines[1:]
		}
		if old != 0 || new != 0 || !changes {
			return nil, false
		}
		if len(lines) > 0 && refMarker(lines[0]) {
			refNoNewline(f)
			lines = lines[1:]
		}
		o, n := f.OldLines, f.NewLines
		fill(f)
		if f.OldLines != o || f.NewLines != n {
			return nil, false
		}
		frags = append(frags, f)
	}
	// what follows belongs to no file; a fragment there is an error
	for _, l := range lines {
		if _, stray := refHeader(l); stray {
			return frags, false
		}
	}
	return frags, true
}

func refNoNewline(f *gitdiff.TextFragment) {
	if n := len(f.Lines); n > 0 {
		l := &f.Lines[n-1]
		if k := len(l.Line); k > 0 && l.Line[k-1] == '\n' {
			l.Line = l.Line[:k-1]
		}
	}
}

const textHeader = "diff --git a/f b/f\n--- a/f\n+++ b/f\n"

// checkFragments parses text after a file header and compares the fragments
// with the reference.
func checkFragments(text string) {
	want, ok := refFragments(splitText(text))
	files, _, err := gitdiff.Parse(strings.NewReader(textHeader + text))
	if !ok {
		sym.Reach("malformed")
		sym.Assert(err != nil, "a malformed fragment is accepted")
		if frags := len(want); frags == 0 {
			sym.Assert(len(files) == 0, "a file with a malformed fragment is returned")
		}
		return
	}
	sym.Reach("well-formed")
	sym.Assert(err == nil, "a well-formed fragment is rejected")
	sym.Assert(len(files) == 1 && len(files[0].TextFragments) == len(want), "wrong number of fragments")
	for i, f := range files[0].TextFragments {
		w := want[i]
		sym.Assert(f.OldPosition == w.OldPosition && f.OldLines == w.OldLines && f.NewPosition == w.NewPosition && f.NewLines == w.NewLines, "wrong positions or counts")
		sym.Assert(f.OldPosition >= 0 && f.OldLines >= 0 && f.NewPosition >= 0 && f.NewLines >= 0, "negative range")
		sym.Assert(f.Comment == w.Comment, "wrong comment")
		sym.Assert(f.LinesAdded == w.LinesAdded && f.LinesDeleted == w.LinesDeleted && f.LeadingContext == w.LeadingContext && f.TrailingContext == w.TrailingContext, "wrong line statistics")
		sym.Assert(len(f.Lines) == len(w.Lines), "wrong number of lines")
		for j, l := range f.Lines {
			sym.Assert(l.Op == w.Lines[j].Op, "wrong line operation")
			sym.Assert(l.Line == w.Lines[j].Line, "wrong line content")
		}
		if f.OldPosition > 0 || f.OldLines == 0 {
			sym.Assert(f.Validate() == nil, "a parsed fragment is not valid")
		}
	}
}

// C06_header both ranges are 1..3 (4) arbitrary bytes and what follows the
// second one up to two arbitrary bytes; the body has one context, one deleted
// and two added lines.
func C06_header() {
	r1 := sym.String("r1", 1+sym.Choose("n1", pick(3, 4)))
	r2 := sym.String("r2", 1+sym.Choose("n2", pick(3, 4)))
	end := []string{" @@", " @", "@@", " @@" + sym.String("tail", 2)}[sym.Choose("end", 4)]
	checkFragments("@@ -" + r1 + " +" + r2 + end + "\n a\n-b\n+c\n+d\n")
}

// C06_separator arbitrary bytes around the ranges of a header that is
// otherwise correct.
func C06_separator() {
	at := sym.Choose("at", 17)
	h := []byte("@@ -1,2 +1,3 @@ x")
	if sym.Choose("insert", 2) == 0 {
		h[at] = sym.Byte("byte")
	} else {
		h = append(append(append([]byte{}, h[:at]...), sym.Byte("byte")), h[at:]...)
	}
	if at < 4 {
		sym.Assume(hasPrefix(string(h), "@@ -"))
	}
	checkFragments(string(h) + "\n a\n-b\n+c\n+d\n")
}

// C06_numbers numbers of 18..20 digits around 2^63 with one arbitrary digit
// at any place, as position or count on either side.
func C06_numbers() {
	d := []byte([]string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "922337203685477580"}[sym.Choose("base", 4)])
	at := sym.Choose("at", 20)
	sym.Assume(at < len(d))
	d[at] = sym.Byte("digit")
	sym.Assume(d[at] >= '0' && d[at] <= '9')
	n := string(d)
	switch sym.Choose("field", 4) {
	case 0:
		checkFragments("@@ -" + n + " +1,2 @@\n-b\n+c\n+d\n")
	case 1:
		checkFragments("@@ -1 +" + n + ",2 @@\n-b\n+c\n+d\n")
	case 2:
		checkFragments("@@ -1," + n + " +1,2 @@\n-b\n+c\n+d\n")
	case 3:
		checkFragments("@@ -1 +1," + n + " @@\n-b\n+c\n+d\n")
	}
}

// C06_comment comments of 0..4 (5) arbitrary bytes without newline after the
// header.
func C06_comment() {
	c := sym.String("comment", sym.Choose("n", pick(5, 6)))
	for i := 0; i < len(c); i++ {
		sym.Assume(c[i] != '\n')
	}
	checkFragments("@@ -1 +1,2 @@" + c + "\n-b\n+c\n+d\n")
}

// C06_body header counts 0..2 (3) on both sides and a body of 0..6 (7)
// arbitrary bytes.
func C06_body() {
	old, new := sym.Choose("old", pick(3, 4)), sym.Choose("new", pick(3, 4))
	body := sym.String("body", sym.Choose("n", pick(7, 8)))
	checkFragments("@@ -3," + itoa(old) + " +4," + itoa(new) + " @@\n" + body)
}

// C06_lines counts are arbitrary digits; 1..3 (5) body lines of one arbitrary
// marker byte and one arbitrary byte, or a "no newline" marker line, or an
// empty line; the last one with or without newline.
func C06_lines() {
	var text string
	n := 1 + sym.Choose("n", pick(3, 5))
	for i := 0; i < n; i++ {
		switch sym.Choose("kind"+itoa(i), 3) {
		case 0:
			text += sym.String("line"+itoa(i), 2) + "\n"
		case 1:
			text += "\\ No newline at end of file\n"
		case 2:
			text += "\n"
		}
	}
	if sym.Choose("eof", 2) == 1 {
		text = text[:len(text)-1]
	}
	c := sym.String("counts", 2)
	sym.Assume(c[0] >= '0' && c[0] <= '5' && c[1] >= '0' && c[1] <= '5')
	checkFragments("@@ -7," + c[:1] + " +9," + c[1:] + " @@ func\n" + text)
}

// C06_marker a line of 9..14 bytes starting with "\" and one arbitrary byte
// after 0..2 lines of a fragment, or after its last line.
func C06_marker() {
	k := 7 + sym.Choose("len", 6)
	marker := "\\" + sym.String("second", 1) + repeat("x", k) + "\n"
	if sym.Choose("eof", 2) == 1 {
		marker = marker[:len(marker)-1]
	}
	lines := []string{"-a\n", "+b\n", " c\n"}
	at := sym.Choose("at", 4)
	text := ""
	for i, l := range lines {
		if i == at {
			text += marker
			if marker[len(marker)-1] != '\n' {
				text += "\n"
			}
		}
		text += l
	}
	if at == 3 {
		text += marker
	}
	checkFragments("@@ -1,2 +1,2 @@\n" + text)
}

// C06_two_fragments a second fragment whose header has one arbitrary byte and
// whose single line has an arbitrary marker follows a first one, which may end
// with a "no newline" marker, an extra line or too early.
func C06_two_fragments() {
	first := []string{"-a\n+b\n", "-a\n+b\n\\ No newline at end of file\n", "-a\n+b\n+c\n", "-a\n", "-a\n\\ No newline at end of file\n+b\n"}[sym.Choose("first", 5)]
	h := []byte("@@ -5 +5,0 @@")
	h[4+sym.Choose("at", 9)] = sym.Byte("byte")
	checkFragments("@@ -1 +1 @@\n" + first + string(h) + "\n" + sym.String("op", 1) + "x\n")
}

// C06_long a fragment of 1..70 (600) lines deleting and adding alternately,
// with an arbitrary count of up to three digits on one side.
func C06_long() {
	n := []int{1, 9, 10, 11, 70, 99, 100, 101, 600}[sym.Choose("n", pick(7, 9))]
	text := repeat("-a\n+b\n", n)
	c := sym.String("count", 3)
	for i := 0; i < 3; i++ {
		sym.Assume(c[i] >= '0' && c[i] <= '9')
	}
	if sym.Choose("side", 2) == 0 {
		checkFragments("@@ -1," + c + " +1," + itoa(n) + " @@\n" + text)
	} else {
		checkFragments("@@ -1," + itoa(n) + " +1," + c + " @@\n" + text)
	}
}

// C06_detached a file of thirteen kinds, a line of 0..2 (3) arbitrary bytes that is no part of it,
// and a fragment: the line ends the file, and the header is an error.
func C06_detached() {
	d := diffKind(sym.Choose("kind", 13), "x")
	s := sym.String("s", sym.Choose("len", pick(3, 4)))
	sym.Assume(strings.IndexByte(s, '\n') < 0)
	files, _, err := gitdiff.Parse(strings.NewReader(d + s + "\n@@ -9 +9 @@\n-a\n+b\n"))
	sym.Assert(err != nil, "a fragment that belongs to no file is accepted")
	sym.Assert(len(files) <= 1, "wrong number of files")
}

// C06_damaged six whole patches with one byte anywhere missing, replaced or preceded by an
// arbitrary one, or cut: every fragment returned is valid, or claims old lines at position 0.
func C06_damaged() {
	files, _, err := gitdiff.Parse(strings.NewReader(damaged(wholePatches[sym.Choose("patch", len(wholePatches))])))
	for _, f := range files {
		for _, t := range f.TextFragments {
			sym.Reach("fragment")
			sym.Assert(t.OldPosition >= 0 && t.NewPosition >= 0, "a negative position")
			sym.Assert(t.LinesAdded+t.LinesDeleted > 0, "a fragment without changes")
			sym.Assert(t.OldPosition == 0 && t.OldLines > 0 || t.Validate() == nil, "an invalid fragment is returned")
		}
		if len(f.TextFragments) > 0 {
			sym.Assert(!(f.IsNew && f.TextFragments[0].OldLines > 0), "a new file with old lines")
			sym.Assert(!(f.IsDelete && f.TextFragments[0].NewLines > 0), "a deleted file with new lines")
		}
	}
	if err != nil {
		sym.Reach("rejected")
	}
}
