package props

import (
	"bytes"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// room is the memory that any call may use, and per byte of real data.
const (
	room    = 2 << 20
	perByte = 100
)

const (
	parseMem = "parsing uses memory for what is only claimed"
	applyMem = "applying uses memory for what is only claimed"
)

// claim is a large number that nothing stands behind.
func claim(name string) int64 {
	return []int64{1 << 18, 1 << 22, 1<<24 - 1, 99 << 20, 1<<31 - 1, 1 << 40, 1<<63 - 1}[sym.Choose(name, 7)]
}

func i64toa(n int64) string {
	if n < 1<<31 {
		return itoa(int(n))
	}
	return i64toa(n/1000000) + itoa(int(1000000 + n%1000000))[1:]
}

// C27_text fragment headers that claim up to 2^63-1 old or new lines or positions,
// with a body of 0..2 lines of an arbitrary byte, or a body that fits at a claimed
// position, in a traditional or git file diff; parsed, and applied if accepted.
func C27_text() {
	pos, n := sym.Choose("where", 4), claim("claim")
	nums := [4]string{"1", "1", "1", "1"}
	nums[pos] = i64toa(n)
	if sym.Bool("both") {
		nums[(pos+2)%4] = i64toa(n)
	}
	body := ""
	for i, k := 0, sym.Choose("lines", 3); i < k; i++ {
		c := sym.Byte("c" + itoa(i))
		sym.Assume(c != '\n')
		body += "-+ "[sym.Choose("op"+itoa(i), 3):][:1] + string([]byte{c}) + "\n"
	}
	if sym.Bool("first") {
		body = "-q\n+r\n@@ -" + nums[0] + "," + nums[1] + " +" + nums[2] + "," + nums[3] + " @@\n" + body
		nums = [4]string{"1", "1", "1", "1"}
	}
	text := "--- a/f\n+++ b/f\n@@ -" + nums[0] + "," + nums[1] + " +" + nums[2] + "," + nums[3] + " @@\n" + body
	if sym.Bool("git") {
		text = "diff --git a/f b/f\nindex 1234567..89abcde 100644\n" + text
	}
	var files []*gitdiff.File
	var err error
	sym.Memory(room+perByte*int64(len(text)), parseMem, func() { files, _, err = gitdiff.Parse(strings.NewReader(text)) })
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	src := []byte("q\nr\ns\n")
	var dst sink
	sym.Memory(room, applyMem, func() { err = gitdiff.Apply(&dst, &memAt{src}, files[0]) })
	sym.Memory(room, "formatting uses memory for what is only claimed", func() { _ = files[0].String() })
}

// C27_fragment a consistent fragment of one or two arbitrary lines at any claimed
// position after one that matches or not, applied to a source of three lines; one
// applier or Apply, and a source that counts lines itself or not.
func C27_fragment() {
	line := sym.String("l", 1) + "\n"
	f := textFile()
	if sym.Bool("two") {
		f.TextFragments = append(f.TextFragments, fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1,
			Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "q\n"}, {Op: gitdiff.OpAdd, Line: line}}}))
	}
	far := &gitdiff.TextFragment{OldPosition: claim("pos"), NewPosition: claim("newpos")}
	for i, n := 0, 1+sym.Choose("lines", 2); i < n; i++ {
		far.Lines = append(far.Lines, gitdiff.Line{Op: opOf[sym.Choose("op"+itoa(i), 3)], Line: line})
	}
	f.TextFragments = append(f.TextFragments, fill(far))
	src := []byte("q\nr\ns\n")
	var dst sink
	var r io.ReaderAt = &memAt{src}
	if sym.Bool("counts") {
		r = &lineAt{memAt{src}}
	}
	var err error
	sym.Memory(room, applyMem, func() { err = gitdiff.Apply(&dst, r, f) })
	sym.Assert(err != nil, "a fragment is applied beyond the source")
}

// C27_binary a literal or delta that claims any size for its data of 0..3 arbitrary
// bytes, parsed from text and applied with and without a limit, or read.
func C27_binary() {
	data := sym.Bytes("data", sym.Choose("len", 4))
	frag := literalFrag(data)
	if sym.Bool("delta") {
		frag = deltaFrag(data)
	}
	frag.Size = claim("size")
	text := "diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n" + gitBinary(frag)
	var files []*gitdiff.File
	var err error
	sym.Memory(room+perByte*int64(len(text)), parseMem, func() { files, _, err = gitdiff.Parse(strings.NewReader(text)) })
	sym.Assert(err == nil && len(files) == 1, "a binary patch is rejected")
	var dst sink
	if sym.Bool("read") {
		sym.Memory(room, "reading uses memory for what is only claimed", func() { _, err = io.ReadAll(files[0].BinaryFragment.Data()) })
	} else if sym.Bool("unlimited") {
		sym.Memory(room, applyMem, func() {
			err = gitdiff.Apply(&dst, &memAt{[]byte("ab")}, files[0], gitdiff.WithMaxBinaryFragmentBytes(-1))
		})
	} else {
		sym.Memory(room, applyMem, func() { err = gitdiff.Apply(&dst, &memAt{[]byte("ab")}, files[0]) })
	}
	sym.Assert(err != nil, "data of another size than declared is accepted")
}

// C27_delta a delta that claims any source or target size, with an insert of an
// arbitrary byte, a copy of up to 2^18 bytes or nothing, over a source of two bytes
// into a writer or a bytes.Buffer, with and without a limit.
func C27_delta() {
	src := []byte("ab")
	var delta []byte
	size := func(n int64) {
		for ; n > 0x7f; n >>= 7 {
			delta = append(delta, byte(n)|0x80)
		}
		delta = append(delta, byte(n))
	}
	if sym.Bool("source") {
		size(claim("srcsize"))
	} else {
		size(2)
	}
	size(claim("dstsize"))
	switch sym.Choose("op", 4) {
	case 1:
		delta = append(delta, 1, sym.Byte("b"))
	case 2:
		delta = append(delta, 0x90, 2, 1, sym.Byte("b"))
	case 3:
		delta = append(delta, 0xf0, 0xff, 0xff, 3)
	}
	frag := deltaFrag(delta)
	var dst io.Writer = &sink{}
	if sym.Bool("buffer") {
		dst = &bytes.Buffer{}
	}
	var err error
	apply := func() { err = gitdiff.NewBinaryApplier(dst, &memAt{src}).ApplyFragment(frag) }
	if sym.Bool("unlimited") {
		apply = func() {
			err = gitdiff.NewBinaryApplier(dst, &memAt{src}, gitdiff.WithMaxBinaryFragmentBytes(-1)).ApplyFragment(frag)
		}
	}
	sym.Memory(room, applyMem, apply)
	sym.Assert(err != nil, "a delta that produces less than it claims is accepted")
}

// C27_linear preambles, file diffs, fragments, bodies, binary data, header lines and
// messages of 2000 (8000) lines or pieces with an arbitrary byte: the memory used is
// in proportion to the input.
func C27_linear() {
	n := pick(2000, 8000)
	c := sym.Byte("c")
	sym.Assume(sym.And(c > ' ', c < 0x7f))
	x := string([]byte{c})
	text := ""
	head := "diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n"
	kind := sym.Choose("kind", 18)
	switch kind {
	case 0: // preamble
		text = repeat("This is text.\n", n) + x + "\n"
	case 1: // files
		text = repeat("diff --git a/f b/f\nold mode 100644\nnew mode 100755\n", n)
	case 2: // fragments
		for i := 0; i < n; i++ {
			text += "@@ -" + itoa(2*i+1) + " +" + itoa(2*i+1) + " @@\n-a\n+" + x + "\n"
		}
		text = head + text
	case 3: // body
		text = head + "@@ -1," + itoa(n) + " +1," + itoa(n+1) + " @@\n+" + x + "\n" + repeat(" context\n", n)
	case 4: // data lines
		raw := repeat("0123456789", 6*n)
		text = "diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n" +
			gitBinary(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 1, RawData: []byte(raw)})
	case 5: // a commit message
		text = "commit 1234567890123456789012345678901234567890\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n" + repeat("    some words "+x+"\n", n)
	case 6: // the same with paragraphs
		text = "commit 1234567890123456789012345678901234567890\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n    Title\n" + repeat("\n    some words "+x+"\n", n/2)
	case 7: // a mail
		text = "From: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH] Title\n\n" + repeat("some words "+x+"\n\n", n/2) + "---\n" + repeat(" f | 2 +-\n", n/2)
	}
	if kind >= 8 {
		sym.Assume(sym.And(c != '"', sym.And(c != '\\', sym.And(c != '/', sym.And(c != '=', c != '?')))))
	}
	long := repeat("abcdefg/"+x+"/", n)
	switch kind {
	case 8: // names
		text = "--- " + long + "n\n+++ " + long + "n\n@@ -1 +1 @@\n-a\n+b\n"
	case 9:
		text = "diff --git a/" + long + "n b/" + long + "n\nrename from " + long + "n\nrename to " + long + "m\n"
	case 10: // quoted
		text = "diff --git \"a/" + repeat("a\\303\\266\\n", n) + "\" \"b/" + repeat("a\\303\\266\\n", n) + "\"\nold mode 100644\nnew mode 100755\n"
	case 11: // a section comment
		text = head + "@@ -1 +1 @@ " + long + "\n-a\n+b\n"
	case 12: // a line
		text = head + "@@ -1 +1 @@\n-a\n+" + long + "\n"
	case 13: // object ids
		text = "diff --git a/f b/f\nindex " + long + ".." + long + " 100644\n"
	case 14: // a subject
		text = "From: A <a@b>\nSubject: [PATCH] =?UTF-8?q?" + repeat("a=C3=B6"+x, n) + "?=\n\nbody\n"
	case 15:
		text = "From: A <a@b>\nSubject: " + repeat("[PATCH] Re: ", n) + "title\n\nbody\n"
	case 16: // a name
		text = "commit 1\nAuthor: " + repeat("A ", n) + "(" + repeat("b \\\" ", n/2) + ") <a@b>\n\n    Title\n"
	case 17: // header lines
		text = "commit 1\n" + repeat("Author: A <a@b>\nDate: 2020-04-11\n", n) + "\n    Title\n"
	}
	limit := room + perByte*int64(len(text))
	var err error
	if kind >= 5 && kind < 8 || kind >= 14 {
		var h *gitdiff.PatchHeader
		sym.Memory(limit, "reading a header uses more memory than in proportion", func() { h, err = gitdiff.ParsePatchHeader(text) })
		sym.Assert(err == nil, "a header is rejected")
		sym.Memory(limit, "a message uses more memory than in proportion", func() { _ = h.Message() })
		return
	}
	var files []*gitdiff.File
	sym.Memory(limit, "parsing uses more memory than in proportion", func() { files, _, err = gitdiff.Parse(strings.NewReader(text)) })
	sym.Assert(err == nil, "a patch is rejected")
	if kind == 2 || kind == 4 || kind >= 8 {
		sym.Memory(limit, "formatting uses more memory than in proportion", func() { _ = files[0].String() })
	}
	if kind == 3 {
		src := []byte(repeat("context\n", n))
		var dst sink
		sym.Memory(limit, "applying uses more memory than in proportion", func() { err = gitdiff.Apply(&dst, &memAt{src}, files[0]) })
		sym.Assert(err == nil && len(dst.b) == len(src)+2, "a patch is not applied")
	}
	if kind == 2 {
		src := []byte(repeat("a\nb\n", n))
		var dst sink
		sym.Memory(limit, "applying uses more memory than in proportion", func() { err = gitdiff.Apply(&dst, &memAt{src}, files[0]) })
		sym.Assert(err == nil && len(dst.b) == len(src), "a patch is not applied")
	}
}
