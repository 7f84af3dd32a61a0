package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

const nKinds = 13

// diffKind is one file diff of the given kind with an arbitrary byte in it.
func diffKind(k int, name string) string {
	c := sym.String(name, 1)
	sym.Assume(c != "\n")
	n := name
	switch k {
	case 0:
		return "diff --git a/" + n + " b/" + n + "\nindex 1..2 100644\n--- a/" + n + "\n+++ b/" + n + "\n@@ -1 +1 @@\n-" + c + "\n+b\n"
	case 1:
		return "diff --git a/" + n + " b/" + n + "\n--- a/" + n + "\n+++ b/" + n + "\n@@ -1 +1,2 @@\n a\n+" + c + "\n@@ -5,2 +6,1 @@\n-" + c + "\n \n"
	case 2:
		return "diff --git a/" + n + " b/" + n + "\nold mode 100644\nnew mode 100755\n"
	case 3:
		return "diff --git a/" + n + " b/" + n + "2\nsimilarity index 100%\nrename from " + n + "\nrename to " + n + "2\n"
	case 4:
		return "diff --git a/" + n + " b/" + n + "\nnew file mode 100644\nindex 0..1\n--- /dev/null\n+++ b/" + n + "\n@@ -0,0 +1 @@\n+" + c + "\n\\ No newline at end of file\n"
	case 5:
		return "diff --git a/" + n + " b/" + n + "\ndeleted file mode 100644\nindex 1..0\n--- a/" + n + "\n+++ /dev/null\n@@ -1 +0,0 @@\n-" + c + "\n"
	case 6:
		return "diff --git a/" + n + " b/" + n + "\nindex 1..2\nGIT binary patch\nliteral 3\nA00000\n\ndelta 4\nB00000\n\n"
	case 7:
		return "diff --git a/" + n + " b/" + n + "\nindex 1..2\nGIT binary patch\nliteral 3\nA00000\n\n"
	case 8:
		return "diff --git a/" + n + " b/" + n + "\nindex 1..2\nBinary files a/" + n + " and b/" + n + " differ\n"
	case 9:
		return "--- " + n + "\n+++ " + n + "\n@@ -1 +1 @@\n-" + c + "\n+b\n"
	case 10:
		return "--- /dev/null\n+++ " + n + "\n@@ -0,0 +1,2 @@\n+" + c + "\n+-- x\n"
	case 11:
		return "diff --git a/" + n + " b/" + n + "\ndeleted file mode 100644\n"
	default:
		return "diff --git a/" + n + " b/" + n + "\nsimilarity index 90%\ncopy from " + n + "x\ncopy to " + n + "\nindex 1..2\n--- a/" + n + "x\n+++ b/" + n + "\n@@ -1 +1 @@\n-" + c + "\n\\ No newline at end of file\n+b\n"
	}
}

// likeDiff are lines that resemble those of a diff but belong to none.
var likeDiff = []string{"--- x\n", "+++ y\n", "\\ x\n", "@@ -1 +1\n", "@@ -1x +1 @@\n", "index 1..2\n", "GIT binary patch\n", "Binary files a and b differ\n"}

// likeHeader are lines that mean something only between the header and the
// content of a file.
var likeHeader = []string{"Binary files a and b differ\n", "GIT binary patch\n", "index 1..2 100755\n", "rename from x\n", "old mode 100755\n", "deleted file mode 100644\n", "similarity index 9%\n", "--- x\n", "+++ y\n"}

// headerOnly tells whether a kind of diff ends with its extended header, so
// that name lines right behind it belong to it.
func headerOnly(k int) bool { return k == 2 || k == 3 || k == 11 }

// junk is text that is no part of a diff: nothing, a line of 0..2 arbitrary
// bytes, or one of a few others and of texts.
func junk(name string, texts ...string) string {
	switch k := sym.Choose(name, 4); k {
	case 0:
		return ""
	case 3:
		texts = append(texts, "-- \n2.30.1\n", "@@ bad\n", "diff -u x y\n", "---\n f | 2 +-\n\n", " @@ -1 +1 @@\n", "diff --git\n")
		return texts[sym.Choose(name+".text", len(texts))]
	default:
		s := sym.String(name+".s", k)
		sym.Assume(strings.IndexByte(s, '\n') < 0)
		return s + "\n"
	}
}

func parseEach(parts []string) []*gitdiff.File {
	var files []*gitdiff.File
	for _, p := range parts {
		f, err := parseOne(p)
		sym.Assert(err == nil, "a file diff is rejected")
		files = append(files, f)
	}
	return files
}

func assertFiles(got, want []*gitdiff.File) {
	sym.Assert(len(got) == len(want), "wrong number of files")
	for i := range got {
		assertSameFile(got[i], want[i])
	}
}

// C13_two two file diffs of thirteen kinds (text, mode change, rename, copy,
// created, deleted, binary with data or not, traditional), each with an
// arbitrary byte, text before and between them.
func C13_two() {
	k1, k2 := sym.Choose("k1", nKinds), sym.Choose("k2", nKinds)
	a, b := diffKind(k1, "p"), diffKind(k2, "q")
	pre, mid := junk("pre", likeDiff...), ""
	if headerOnly(k1) {
		mid = junk("mid")
	} else {
		mid = junk("mid", likeHeader...)
	}
	if headerOnly(k1) && mid == "" {
		sym.Assume(b[0] == 'd')
	}
	want := parseEach([]string{a, b})
	files, got, err := gitdiff.Parse(strings.NewReader(pre + a + mid + b))
	sym.Assert(err == nil, "two file diffs are rejected")
	assertFiles(files, want)
	sym.Assert(got == pre, "wrong preamble")
}

// C13_three three file diffs of any kinds, one after the other, then text.
func C13_three() {
	var parts []string
	for i := 0; i < 3; i++ {
		k := sym.Choose("k"+itoa(i), nKinds)
		p := diffKind(k, []string{"p", "q", "r"}[i])
		if headerOnly(k) {
			p += "\n"
		}
		parts = append(parts, p)
	}
	want := parseEach(parts)
	files, pre, err := gitdiff.Parse(strings.NewReader(strings.Join(parts, "") + "-- \nend"))
	sym.Assert(err == nil, "three file diffs are rejected")
	assertFiles(files, want)
	sym.Assert(pre == "", "a preamble from nowhere")
}

// C13_preamble two lines of text before a file, or alone and then with or
// without a final newline: 0..3 arbitrary bytes each or resembling a diff.
func C13_preamble() {
	pre := junk("a", likeDiff...) + junk("b", likeDiff...)
	if sym.Choose("free", 2) == 1 {
		pre += sym.String("c", 3)
		if sym.Choose("eol", 2) == 0 {
			pre += "\n"
		}
	}
	var want []*gitdiff.File
	p := pre
	if sym.Choose("file", 2) == 1 {
		sym.Assume(len(pre) == 0 || pre[len(pre)-1] == '\n')
		d := diffKind([]int{0, 2, 9}[sym.Choose("k", 3)], "p")
		p += d
		want = parseEach([]string{d})
	}
	files, got, err := gitdiff.Parse(strings.NewReader(p))
	sym.Assert(err == nil, "text before a file diff is an error")
	assertFiles(files, want)
	sym.Assert(got == pre, "wrong preamble")
}

// C13_error nothing or one or two file diffs of any kind, then a corrupt one:
// the files before it and the preamble are returned with the error.
func C13_error() {
	pre := junk("pre", likeDiff...)
	var parts []string
	for i, n := 0, sym.Choose("files", 3); i < n; i++ {
		k := sym.Choose("k"+itoa(i), nKinds)
		p := diffKind(k, []string{"p", "q"}[i])
		if headerOnly(k) {
			p += "\n"
		}
		parts = append(parts, p)
	}
	bad := []string{
		"@@ -1 +1 @@\n-a\n+b\n", // no file header: joins a file before it
		"diff --git a/x b/x\nold mode 9\n",
		"diff --git a/x b/y\n",
		"--- x\n+++ x\n@@ -1 +1 @@\n-a\n",
		"--- x\n+++ x\n@@ -1 +x1 @@\n-a\n",
		"--- /dev/null\n+++ x\n@@ -1 +1 @@\n-a\n+b\n",
		"diff --git a/x b/x\nGIT binary patch\nliteral 3\nA000\n\n",
		"diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n@@ -3 +3 @@\n a\n",
	}
	k := sym.Choose("bad", len(bad))
	if k == 0 {
		sym.Assume(len(parts) == 0)
	}
	want := parseEach(parts)
	files, got, err := gitdiff.Parse(strings.NewReader(pre + strings.Join(parts, "") + bad[k]))
	sym.Assert(err != nil, "a corrupt file diff is accepted")
	assertFiles(files, want)
	if len(parts) > 0 {
		sym.Assert(got == pre, "wrong preamble")
	}
}

// C13_crlf two file diffs (git or traditional, modes, or a file without changes, with a header
// or all lines ending in CRLF or not, an arbitrary byte at the end of a line): each is parsed
// as it is alone.
func C13_crlf() {
	c := sym.String("c", 1)
	diff := func(k int, name string) string {
		body := "--- a/" + name + "\n+++ b/" + name + "\n@@ -1,2 +1 @@\n-a" + c + "\n-b\r\n+c\r\n"
		d := "diff --git a/" + name + " b/" + name + "\n"
		switch k {
		case 0:
			return d + body
		case 1:
			return body
		case 2:
			return strings.TrimSuffix(d, "\n") + "\r\nold mode 100644\nnew mode 100755\n"
		case 3:
			return strings.ReplaceAll(d+"old mode 100644\nnew mode 100755\n", "\n", "\r\n")
		case 4:
			return strings.ReplaceAll(body, "\n", "\r\n")
		case 5:
			return strings.ReplaceAll(d+body, "\n", "\r\n")
		default:
			return strings.ReplaceAll(d, "\n", c+"\n") + "rename from " + name + "\nrename to z\r\n"
		}
	}
	a, b := sym.Choose("a", 7), sym.Choose("b", 7)
	mid := []string{"", "text\r\n", "text\n"}[sym.Choose("text", 3)]
	one, two := diff(a, "x"), diff(b, "y")
	if mid == "" && (a == 2 || a == 3 || a == 6) && (b == 1 || b == 4) {
		return // one diff
	}
	f1, _, err1 := gitdiff.Parse(strings.NewReader(one))
	f2, _, err2 := gitdiff.Parse(strings.NewReader(two))
	files, pre, err := gitdiff.Parse(strings.NewReader(mid + one + mid + two))
	if err1 != nil || err2 != nil {
		sym.Assert(err != nil, "a malformed file diff is accepted among others")
		return
	}
	sym.Assert(err == nil, "file diffs are rejected together")
	sym.Assert(pre == mid, "wrong preamble")
	assertFiles(files, append(f1, f2...))
}

// C13_damaged two file diffs with arbitrary damage to one byte of the second (missing,
// replaced, preceded, or the rest missing), after text and a text file diff
// (text, or a binary file diff): the result is that of the damaged one alone, whether it is accepted or not.
func C13_damaged() {
	text := damaged(wholePatches[sym.Choose("patch", len(wholePatches))])
	k := []int{2, 1, 3}[sym.Choose("before", pick(1, 3))]
	pre := []string{"", "x\n\ny\n", "x\ndiff --git a/z b/z\n--- a/z\n+++ b/z\n@@ -1,2 +1,2 @@\n-a\n b\n\\ No newline at end of file\n+b\n",
		"diff --git a/z b/z\nGIT binary patch\nliteral 3\nA00000\n\nliteral 3\nA00000\n\n"}[k]
	before, _, _ := gitdiff.Parse(strings.NewReader(pre))
	want, wantText, werr := gitdiff.Parse(strings.NewReader(text))
	got, gotText, err := gitdiff.Parse(strings.NewReader(pre + text))
	sym.Assert((err == nil) == (werr == nil), "a file diff is judged by what precedes it")
	sym.Assert(len(before) == []int{0, 0, 1, 1}[k], "a file diff is lost")
	assertFiles(got, append(before, want...))
	switch {
	case k > 1:
		sym.Assert(gotText == pre[:[]int{0, 0, 2, 0}[k]], "wrong preamble")
	case err == nil || len(want) > 0:
		sym.Assert(gotText == pre+wantText, "wrong preamble")
	}
	if n := errLine(werr); n > 0 {
		sym.Reach("rejected")
		sym.Assert(errLine(err) == n+strings.Count(pre, "\n"), "the error names another line")
	}
}
