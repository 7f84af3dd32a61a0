package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// errLine is the line number an error of Parse names, 0 for none.
func errLine(err error) int {
	const p = "gitdiff: line "
	if err == nil || !hasPrefix(err.Error(), p) {
		return 0
	}
	n, rest, ok := refNumber(err.Error()[len(p):])
	if !ok || !hasPrefix(rest, ": ") {
		return 0
	}
	return int(n)
}

// precede is what precedes the file at fault: text, or another file diff of any
// kind, or both.
func precede() string {
	pre := ""
	for i := sym.Choose("text", 3); i > 0; i-- {
		c := sym.Byte("pre")
		sym.Assume(c != '\n' && c != '@' && c != 'd' && c != '-')
		pre += string([]byte{c}) + "\n"
	}
	if k := sym.Choose("file", nKinds+1); k < nKinds {
		pre += diffKind(k, "z")
		if headerOnly(k) {
			pre += "\n"
		}
	}
	return pre
}

// precedeShort is precede with less variety, for harnesses that vary elsewhere.
func precedeShort() string {
	return []string{"", "x\n\ny\n", "x\n" + "diff --git a/z b/z\n--- a/z\n+++ b/z\n@@ -1,2 +1,2 @@\n-a\n b\n\\ No newline at end of file\n+b\n",
		"diff --git a/z b/z\nGIT binary patch\nliteral 3\nA00000\n\nliteral 3\nA00000\n\n"}[sym.Choose("before", 4)]
}

// assertAt parses a patch whose line number n (from 1 after pre) is at fault.
func assertAt(pre, rest string, n int) {
	_, _, err := gitdiff.Parse(strings.NewReader(pre + rest))
	sym.Assert(err != nil, "a malformed patch is accepted")
	sym.Assert(errLine(err) == strings.Count(pre, "\n")+n, "the error names another line")
}

// C25_header a git header whose 1st, 2nd or 3rd extended line is one of fifteen
// malformed or contradicting ones with an arbitrary byte, after texts and file
// diffs of any kind; it is the line that the error names.
func C25_header() {
	c := sym.Byte("c")
	s := string([]byte{c})
	bad := ""
	switch sym.Choose("bad", 15) {
	case 0:
		bad = "old mode 10064" + s
	case 1:
		bad = "new mode " + s + "00644"
	case 2:
		bad = "deleted file mode 1" + s + "0644"
	case 3:
		bad = "new file mode " + s
	case 4:
		bad = "index 1..2 10064" + s
	case 5:
		bad = "similarity index " + s + "0%"
	case 6:
		bad = "dissimilarity index 1" + s + "%"
	case 7:
		bad = "index 1." + s + "2"
		sym.Assume(c != '.')
	case 8:
		bad = "--- a/" + s + "q"
	case 9:
		bad = "+++ b/" + s + "q"
	case 10:
		bad = "rename from \"" + s
		sym.Assume(c != '"')
	case 11:
		bad = "copy to \"\\" + s + "\""
		sym.Assume(strings.IndexByte("abtnvfr\"\\01234567", c) < 0)
	case 12:
		bad = "--- /dev/null"
	case 13:
		bad = "+++ /dev/null"
	default:
		bad = "rename to \"x\\" + s + "00"
		sym.Assume(c != '"')
	}
	sym.Assume(c != '\n')
	if hasPrefix(bad, "old mode") || hasPrefix(bad, "new") || hasPrefix(bad, "deleted") || hasPrefix(bad, "index 1..2") {
		sym.Assume((c < '0' || c > '7') && c != ' ' && (c < '\t' || c > '\r'))
	}
	if hasPrefix(bad, "similarity") || hasPrefix(bad, "dissimilarity") {
		sym.Assume(c < '0' || c > '9')
	}
	k := sym.Choose("good", 3)
	head := "diff --git a/x b/x\n" + []string{"", "old mode 100644\n", "new mode 100644\nindex 1..2\n"}[k]
	tail := []string{"\n", "", "\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n"}[sym.Choose("tail", 3)]
	if bad[0] == '-' || bad[0] == '+' {
		// a name that contradicts the one before it
		head += "--- a/x\n+++ b/x\n"
		k += 2
	}
	pre := precedeShort()
	assertAt(pre, head+bad+tail, k+2)
}

// C25_name diff --git lines with bad names (the line is named) or without any
// usable name (the first line after the header is), and traditional headers
// with a bad old or new name (the name's line is named), after texts and file
// diffs of any kind; one byte arbitrary.
func C25_name() {
	c := sym.Byte("c")
	sym.Assume(c != '\n' && c != '"' && c != '\\' && c != '\t')
	s := string([]byte{c})
	frag := "@@ -1 +1 @@\n-a\n+b\n"
	pre := precede()
	switch sym.Choose("kind", 7) {
	case 0:
		assertAt(pre, "diff --git \"a/"+s+"\n", 1)
	case 1:
		assertAt(pre, "diff --git a/x \"b/"+s+"\n--- a/x\n", 1)
	case 2:
		sym.Assume(c != 'x' && c != ' ' && c != '\t' && c != '/')
		tail := []string{"", "\n", "text\n", "GIT binary patch\n"}[sym.Choose("tail", 4)]
		assertAt(pre, "diff --git a/x b/"+s+"\nindex 1..2 100644\n"+tail, 3)
	case 3:
		assertAt(pre, "--- \""+s+"\n+++ x\n"+frag, 1)
	case 4:
		assertAt(pre, "--- "+s+"\n+++ \"x\n"+frag, 2)
	case 5:
		assertAt(pre, "--- \t"+s+"\n+++ x\n"+frag, 1)
	default:
		assertAt(pre, "--- x\n+++ \t"+s+"\n"+frag, 2)
	}
}

// C25_fragment a fragment header with one arbitrary byte at any place, after
// no, one or two good fragments of a git file diff: if it is malformed the
// error names it.
func C25_fragment() {
	h := []byte("@@ -1,1 +1 @@ c\n")
	at := 4 + sym.Choose("at", len(h)-5)
	h[at] = sym.Byte("b")
	sym.Assume(h[at] != '\n')
	good := []string{"", "@@ -1 +1 @@\n-a\n+b\n", "@@ -1 +1 @@\n-a\n+b\n\\ No newline at end of file\n@@ -5,2 +5,2 @@\n a\n\n@@ -9 +9 @@\n-a\n+b\n"}
	k := sym.Choose("good", 2)
	pre := precedeShort() + "diff --git a/x b/x\n--- a/x\n+++ b/x\n" + good[k]
	if sym.Bool("second") {
		pre += "@@ -7,2 +7,1 @@\n-a\n \n"
	}
	_, ok := refHeader(string(h))
	sym.Assume(!ok)
	assertAt(pre, string(h)+"-a\n+b\n", 1)
}

// C25_body a fragment of 0..3 (4) lines of six kinds (the operations, an empty
// line, a "no newline" marker, an unknown first byte, arbitrary in up to 2 (3) lines) with any old and new
// counts of one digit, after text or a file diff: the error names the header if
// the counts are wrong, the line if its operation is unknown, and the first line
// behind if there is nothing or no change.
func C25_body() {
	pre := "x\n--- x\n+++ x\n"
	if sym.Bool("file") {
		pre = "diff --git a/z b/z\n--- a/z\n+++ b/z\n@@ -1,2 +1,2 @@\n-a\n b\n\\ No newline at end of file\n+b\n" + pre[2:]
	}
	old, new := sym.Choose("old", pick(4, 5)), sym.Choose("new", pick(4, 5))
	var body []string
	n := sym.Choose("n", pick(4, 5))
	unknown := -1
	for i := 0; i < n; i++ {
		switch k := sym.Choose("k"+itoa(i), 6); k {
		case 5:
			sym.Assume(unknown < 0)
			unknown = i
			c := byte('q')
			if n <= pick(2, 3) {
				c = sym.Byte("op")
				sym.Assume(c != ' ' && c != '+' && c != '-' && c != '\n' && c != '@' && c != 'd')
			}
			body = append(body, string([]byte{c})+"\n")
		default:
			body = append(body, []string{" x\n", "-x\n", "+x\n", "\n", "\\ No newline at end of file\n"}[k])
		}
	}
	at := 0 // of the error, from the fragment header
	i, o, w, changes := 0, old, new, false
	for at == 0 && (o > 0 || w > 0) && i < n {
		switch body[i][0] {
		case ' ', '\n':
			o--
			w--
		case '-':
			o--
			changes = true
		case '+':
			w--
			changes = true
		default:
			if len(body[i]) < 12 {
				at = i + 2
			}
		}
		i++
	}
	switch {
	case at != 0:
	case n == 0:
		at = 2
	case o != 0 || w != 0:
		at = 1
	case !changes:
		at = i + 2
	}
	rest := "@@ -1," + itoa(old) + " +1," + itoa(new) + " @@\n" + strings.Join(body, "")
	if at != 0 {
		assertAt(pre, rest, at)
		return
	}
	_, _, err := gitdiff.Parse(strings.NewReader(pre + rest))
	sym.Assert(err == nil, "a good fragment is rejected")
}

// C25_kind old contents in a created file, new contents in a deleted one, in the
// first or second fragment, and a fragment that belongs to no file (sixteen pairs of ranges, some without lines), after texts
// and file diffs of any kind: the error names the fragment header.
func C25_kind() {
	c := sym.String("c", 1)
	sym.Assume(c != "\n")
	pre := precede()
	switch sym.Choose("kind", 5) {
	case 0:
		assertAt(pre, "diff --git a/x b/x\nnew file mode 100644\n--- /dev/null\n+++ b/x\n@@ -1 +1 @@\n-"+c+"\n+b\n", 5)
	case 1:
		assertAt(pre, "diff --git a/x b/x\ndeleted file mode 100644\n--- a/x\n+++ /dev/null\n@@ -1 +1 @@\n-a\n+"+c+"\n", 5)
	case 2:
		assertAt(pre, "--- /dev/null\n+++ x\n@@ -0,0 +1 @@\n+"+c+"\n@@ -2 +2,0 @@\n-a\n", 5)
	case 3:
		assertAt(pre, "--- x\n+++ /dev/null\n@@ -1 +0,0 @@\n-"+c+"\n@@ -2,0 +2 @@\n+a\n", 5)
	default:
		r := func(n string) string {
			return []string{"1", "0,0", "7,1", "3,0"}[sym.Choose(n, 4)]
		}
		assertAt(pre+"text\n", "@@ -"+r("old")+" +"+r("new")+" @@ "+c+"\n-a\n+b\n", 1)
	}
}

// C25_binary up to 4 (5) lines after a binary marker, each one of eight (good and
// corrupt headers and data lines, a blank line, other text; one byte of the
// corrupt data lines arbitrary): the error names the line at fault or the first
// one behind the end.
func C25_binary() {
	pre := precedeShort() + "diff --git a/x b/x\nindex 1..2\nGIT binary patch\n"
	n := sym.Choose("n", pick(5, 6))
	c := sym.Byte("c")
	sym.Assume(c != '\n')
	var lines []string
	for i := 0; i < n; i++ {
		k := sym.Choose("k"+itoa(i), 8)
		lines = append(lines, []string{"literal 3\n", "delta 4\n", "literal -3\n", "delta 3" + string([]byte{c}) + "\n", "A0000" + string([]byte{c}) + "\n", string([]byte{c}) + "00000\n", "\n", "text\n"}[k])
	}
	// the grammar: header data* blank [header data* blank]
	at, i := 0, 0
	for frag := 0; frag < 2 && at == 0; frag++ {
		if i >= n || !hasPrefix(lines[i], "literal ") && !hasPrefix(lines[i], "delta ") {
			if frag == 0 {
				at = i + 1
			}
			break
		}
		size := strings.TrimSuffix(lines[i][strings.IndexByte(lines[i], ' ')+1:], "\n")
		if _, rest, ok := refNumber(size); !ok || rest != "" {
			at = i + 1
			break
		}
		i++
		for {
			if i >= n {
				at = i + 1
				break
			}
			if lines[i] == "\n" {
				i++
				break
			}
			_, ok := refData(lines[i][:len(lines[i])-1])
			if !ok {
				at = i + 1
				break
			}
			i++
		}
	}
	if at != 0 {
		assertAt(pre, strings.Join(lines, ""), at)
		return
	}
	_, _, err := gitdiff.Parse(strings.NewReader(pre + strings.Join(lines, "")))
	sym.Assert(err == nil, "good binary data are rejected")
}

// C25_damaged six whole patches with one byte anywhere missing, replaced or preceded by an
// arbitrary one, or cut, after text and a file diff: the error names a line of the damaged
// patch or the one after it, and moves with the text before it.
func C25_damaged() {
	text := damaged(wholePatches[sym.Choose("patch", len(wholePatches))])
	_, _, err := gitdiff.Parse(strings.NewReader(text))
	if err == nil {
		return
	}
	sym.Reach("rejected")
	n := errLine(err)
	sym.Assert(n >= 1 && n <= strings.Count(text, "\n")+2, "the error names no line of the patch")
	pre := []string{"x\ndiff --git a/z b/z\n--- a/z\n+++ b/z\n@@ -1,2 +1,2 @@\n-a\n b\n\\ No newline at end of file\n+b\n", "x\n\ny\n"}[sym.Choose("before", pick(1, 2))]
	assertAt(pre, text, n)
}
