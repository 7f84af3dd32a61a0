package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// The harnesses of this file repeat claims at sizes where buffers, limits and
// small counters end: many lines, fragments, files or instructions, and long
// lines, names and data. What is arbitrary is a byte at a chosen place.

// place is one of three places in n: the first, the middle, the last.
func place(name string, n int) int { return []int{0, n / 2, n - 1}[sym.Choose(name, 3)] }

// notNewline is an arbitrary byte other than a newline, as a string.
func notNewline(name string) string {
	s := sym.String(name, 1)
	sym.Assume(s != "\n")
	return s
}

// manyFrags are n fragments that each replace the second one of three numbered lines,
// and a source for them; the one at place odd expects another line.
func manyFrags(n, odd int, old string) (frags []*gitdiff.TextFragment, src []byte) {
	for i := 0; i < n; i++ {
		l := "a" + itoa(3*i+1) + "\n"
		if i == odd {
			l = old
		}
		frags = append(frags, fill(&gitdiff.TextFragment{OldPosition: int64(3*i + 1), NewPosition: int64(3*i + 1), Lines: []gitdiff.Line{
			{Op: gitdiff.OpContext, Line: "a" + itoa(3*i) + "\n"}, {Op: gitdiff.OpDelete, Line: l}, {Op: gitdiff.OpAdd, Line: "n" + itoa(i) + "\n"}}}))
	}
	return frags, []byte(numbered("a", 3*n+1))
}

// C01_many_fragments 40, 127..129 and 300 (3000) fragments in order, of which the
// first, the middle or the last expects an arbitrary line.
func C01_many_fragments() {
	n := []int{40, 127, 128, 129, 300, 3000}[sym.Choose("n", pick(5, 6))]
	frags, src := manyFrags(n, place("odd", n), sym.String("old", 1)+"\n")
	checkApply(src, frags)
}

// C01_long_fragment a fragment of 1000, 4095..4097 and 10000 old and new lines, of
// which the first, the middle or the last old one is arbitrary.
func C01_long_fragment() {
	n := []int{1000, 4095, 4096, 4097, 10000}[sym.Choose("n", 5)]
	odd := place("odd", n)
	f := &gitdiff.TextFragment{OldPosition: 2, NewPosition: 2}
	for i := 0; i < n; i++ {
		l := "a" + itoa(i+1) + "\n"
		if i == odd {
			l = "a" + sym.String("old", 1) + l[2:]
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: gitdiff.OpDelete, Line: l}, gitdiff.Line{Op: gitdiff.OpAdd, Line: "b" + l[1:]})
	}
	checkApply([]byte(numbered("a", n+2)), []*gitdiff.TextFragment{fill(f)})
}

// C02_lots 33, 129 and 257 (1025) fragments listed backwards, rotated by half, or
// with a stride of seven, one of them (first, middle or last) with an arbitrary line.
func C02_lots() {
	n := []int{33, 129, 257, 1025}[sym.Choose("n", pick(3, 4))]
	frags, src := manyFrags(n, place("odd", n), sym.String("old", 1)+"\n")
	listed := make([]*gitdiff.TextFragment, n)
	how := sym.Choose("how", 3)
	for i := range listed {
		listed[i] = frags[[]int{n - 1 - i, (i + n/2) % n, i * 7 % n}[how]]
	}
	if n%7 == 0 {
		return
	}
	checkOrder(src, frags, listed)
}

// C04_many_ops a delta of 40, 255..257 and 1000 (20000) instructions, copies and
// insertions in turn, whose declared target size is off by -1, 0 or 1; one inserted
// byte is arbitrary.
func C04_many_ops() {
	n := []int{40, 255, 256, 257, 1000, 20000}[sym.Choose("n", pick(5, 6))]
	src := sym.Bytes("src", 2)
	odd := place("odd", n)
	var ops, want []byte
	for i := 0; i < n; i++ {
		if i%2 == 1 && i != odd {
			ops = append(ops, 0x91, 1, 1)
			want = append(want, src[1])
		} else {
			b := byte(i)
			if i == odd {
				b = sym.Byte("b")
			}
			ops = append(ops, 1, b)
			want = append(want, b)
		}
	}
	off := sym.Choose("off", 3) - 1
	delta := append([]byte{2}, varint(int64(n+off))...)
	delta = append(delta, ops...)
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{IsBinary: true, BinaryFragment: deltaFrag(delta)}))
	sym.Assert((err == nil) == (off == 0), "a long delta is rejected, or accepted with the wrong size")
	if off == 0 {
		sym.Assert(sym.EqBytes(dst.b, want), "a long delta writes the wrong bytes")
	}
}

// C06_lots a fragment of 1000, 4097 and 40000 (70000) pairs of lines, of which the
// first, middle or last begins with an arbitrary byte, or 50, 257 or 1000 fragments
// one after the other with such a line in one of them.
func C06_lots() {
	c := sym.String("op", 1)
	text := ""
	if sym.Choose("fragments", 2) == 0 {
		n := []int{1000, 4097, 40000, 70000}[sym.Choose("n", pick(3, 4))]
		odd := place("odd", n)
		text = "@@ -1," + itoa(n) + " +1," + itoa(n) + " @@\n" + numbered2("-a", "+b", 0, odd) + c + "a\n+b\n" + numbered2("-a", "+b", odd, n-1)
	} else {
		n := []int{50, 257, 1000}[sym.Choose("n", 3)]
		odd := place("odd", n)
		var parts []string
		for i := 0; i < n; i++ {
			l := "-a" + itoa(i) + "\n"
			if i == odd {
				l = c + l[1:]
			}
			parts = append(parts, "@@ -"+itoa(4*i+1)+",2 +"+itoa(4*i+1)+",2 @@ f"+itoa(i)+"\n"+l+"+b\n c"+itoa(-i)+"\n")
		}
		text = strings.Join(parts, "")
	}
	checkFragments(text)
}

// C07_lots files with 50, 257 or 1000 fragments, or one of 1000, 4097 or 20000
// lines, or with lines of 4095..4097, 65535..65537 and 100000 bytes, or a comment of
// 4095..4097 or 65536 bytes, with an arbitrary byte at one of three places.
func C07_lots() {
	c := notNewline("c")
	f := &gitdiff.File{OldName: "f", NewName: "f"}
	switch sym.Choose("kind", 4) {
	case 0:
		n := []int{50, 257, 1000}[sym.Choose("n", 3)]
		f.TextFragments, _ = manyFrags(n, place("odd", n), c+"\n")
	case 1:
		n := []int{1000, 4097, 20000}[sym.Choose("n", 3)]
		odd := place("odd", n)
		frag := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
		for i := 0; i < n; i++ {
			l := gitdiff.Line{Op: opOf[i%3], Line: "x" + itoa(i) + "\n"}
			if i == odd {
				l.Line = c + "\n"
			}
			frag.Lines = append(frag.Lines, l)
		}
		f.TextFragments = []*gitdiff.TextFragment{fill(frag)}
	case 2:
		n := []int{4095, 4096, 4097, 65535, 65536, 65537, 100000}[sym.Choose("n", 7)]
		at := place("odd", n)
		l := letters(at) + c + letters(n-1-at)
		f.TextFragments = []*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: l + "\n"}, {Op: gitdiff.OpAdd, Line: l}}})}
	case 3:
		n := []int{4095, 4096, 4097, 65536}[sym.Choose("n", 4)]
		at := place("odd", n)
		frag := oneFrag(1, 1)
		frag.Comment = letters(at) + c + letters(n-1-at)
		sym.Assume(strings.TrimSpace(frag.Comment) == frag.Comment)
		f.TextFragments = []*gitdiff.TextFragment{frag}
	}
	checkRoundTrip(f)
}

// slashed is a path of n varied letters with a slash at every tenth place.
func slashed(n int) string {
	b := []byte(letters(n))
	for i := 4; i < n; i += 10 {
		b[i] = '/'
	}
	return string(b)
}

// C08_long names of 100, 254..257, 1023..1025, 4095..4097 and 5000 bytes with an
// arbitrary byte at one of three places, in every position.
func C08_long() {
	n := []int{100, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 5000}[sym.Choose("n", 12)]
	at := place("at", n)
	c := path("c", 1)
	name := slashed(n)
	name = name[:at] + c + name[at+1:]
	if name[n-1] == '/' {
		return
	}
	checkRoundTrip(nameFile(sym.Choose("kind", 6), name, "o"))
}

// C09_long raw data of 1000, 4095..4097, 32767..32769, 65535..65537, 66000, 140000 and 400000 bytes with
// an arbitrary byte at one of three places, alone or with a reverse fragment of 4096.
func C09_long() {
	n := []int{1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 66000, 140000, 400000}[sym.Choose("n", 13)]
	data := varied(n)
	data[place("at", n)] = sym.Byte("c")
	f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(n), RawData: data}
	var rev *gitdiff.BinaryFragment
	if sym.Choose("reverse", 2) == 1 {
		rev = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: 1, RawData: data[:min(n, 4096)]}
	}
	checkRoundTrip(binFile(f, rev))
}

// C10_many 100, 1000 and 2000 good data lines, one of which (first, middle or last)
// has an arbitrary character.
func C10_many() {
	n := []int{100, 1000, 2000}[sym.Choose("n", 3)]
	odd := place("odd", n)
	c := notNewline("c")
	data := varied(52 * n)
	text := gitEncode85(data)
	text = text[:len(text)-1]
	bad := text[67*odd:67*odd+64] + c + text[67*odd+65:67*odd+67]
	w, ok := refData(bad[:66])
	files, _, err := gitdiff.Parse(strings.NewReader(binHead + "delta 9\n" + text[:67*odd] + bad + text[67*odd+67:] + "\n"))
	if !ok {
		sym.Assert(err != nil, "a corrupt data line is accepted")
		return
	}
	sym.Assert(err == nil && len(files) == 1, "correct data lines are rejected")
	copy(data[52*odd:], w)
	sym.Assert(sym.EqBytes(files[0].BinaryFragment.RawData, data), "data lines are decoded wrongly")
}

// C12_long names of 255..257 and 4095..4097 bytes with an arbitrary byte at one of
// three places.
func C12_long() {
	n := []int{255, 256, 257, 4095, 4096, 4097}[sym.Choose("n", 6)]
	at := place("at", n)
	c := tabName("c", 1)
	name := slashed(n)
	name = name[:at] + c + name[at+1:]
	sym.Assume(name[0] != '"' && c != "/" && name[n-1] != '/')
	f, err := parseOne("--- " + name + "\t2020\n+++ " + name + "\n" + tradHunk)
	sym.Assert(err == nil, "a traditional header is rejected")
	assertSameFile(f, &gitdiff.File{OldName: name, NewName: name, TextFragments: []*gitdiff.TextFragment{oneFrag(1, 1)}})
}

// C13_lots 20, 129 and 300 (2000) file diffs of any of three kinds or of all in
// turn, the first, middle or last with an arbitrary byte, after and between lines of
// text, or not.
func C13_lots() {
	n := []int{20, 129, 300, 2000}[sym.Choose("n", pick(3, 4))]
	odd := place("odd", n)
	kind := sym.Choose("kind", 4)
	mid := []string{"", "text\n"}[sym.Choose("text", 2)]
	var parts []string
	var want []*gitdiff.File
	for i := 0; i < n; i++ {
		name := "f" + itoa(i)
		c := "c"
		if i == odd {
			c = notNewline("c")
		}
		k := kind
		if k == 3 {
			k = i % 3
		}
		w := &gitdiff.File{OldName: name, NewName: name}
		switch k {
		case 0:
			parts = append(parts, "diff --git a/"+name+" b/"+name+"\n--- a/"+name+"\n+++ b/"+name+"\n@@ -1 +1 @@\n-"+c+"\n+"+name+"\n")
			w.TextFragments = []*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: c + "\n"}, {Op: gitdiff.OpAdd, Line: name + "\n"}}})}
		case 1:
			parts = append(parts, "diff --git a/"+name+" b/"+name+"\nold mode 100644\nnew mode 100755\n")
			w.OldMode, w.NewMode = 0o100644, 0o100755
		case 2:
			parts = append(parts, "diff --git a/"+name+" b/"+name+"\nGIT binary patch\nliteral 3\nA00000\n\n")
			w.IsBinary = true
			w.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 3, RawData: []byte{0}}
		}
		want = append(want, w)
	}
	files, pre, err := gitdiff.Parse(strings.NewReader(mid + strings.Join(parts, mid)))
	sym.Assert(err == nil, "many file diffs are rejected")
	sym.Assert(pre == mid, "wrong preamble")
	assertFiles(files, want)
}

// C13_long_preamble a preamble of 5000 lines, or of one line of 4095..4097,
// 65535..65537 and 100000 bytes, with an arbitrary byte at one of three places.
func C13_long_preamble() {
	c := sym.String("c", 1)
	pre := ""
	switch k := sym.Choose("n", 8); k {
	case 7:
		odd := place("odd", 5000)
		pre = numbered("some text ", odd) + c + "\n" + numbered("more text ", 4999-odd)
	default:
		n := []int{4095, 4096, 4097, 65535, 65536, 65537, 100000}[k]
		odd := place("odd", n)
		pre = letters(odd) + c + letters(n-odd-1) + "\n"
	}
	d := diffKind(0, "p")
	want := parseEach([]string{d})
	files, got, err := gitdiff.Parse(strings.NewReader(pre + d))
	sym.Assert(err == nil, "text before a file diff is an error")
	sym.Assert(got == pre, "wrong preamble")
	assertFiles(files, want)
}

// C14_parse_longer lines of 65533..65538, 131071..131073, 262144, 300000 and 2^20+1
// bytes in the preamble or in a fragment,
// with an arbitrary byte at the end, at once, in pieces, or by a reader with
// ReadString.
func C14_parse_longer() {
	n := []int{65533, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 262144, 300000, 1<<20 + 1}[sym.Choose("len", 12)]
	l := letters(n-2) + sym.String("c", 1)
	text := l + "\n--- x\n+++ x\n@@ -1 +1 @@\n-a\n+b\n"
	if sym.Choose("where", 2) == 1 {
		text = "--- x\n+++ x\n@@ -1,2 +1 @@\n-" + l + "\n-a\n+b"
		files, _, err := gitdiff.Parse(strings.NewReader(text))
		if l[n-2] != '\n' {
			sym.Assert(err == nil && len(files) == 1 && files[0].TextFragments[0].Lines[0].Line == l+"\n", "a long line is not read")
		}
	}
	switch sym.Choose("reader", 3) {
	case 0:
		checkDelivery(text, &slowReader{b: text, cut: 4096, step: 4095, eager: true})
	case 1:
		checkDelivery(text, &lineStream{b: text})
	case 2:
		checkDelivery(text, &slowReader{b: text, step: len(text), eager: true})
	}
}

// C18_many fragments of 127..129, 255..257 and 65535..65537 lines of one kind with
// one count off by the same number, by 256 or by 65536, or not at all.
func C18_many() {
	n := []int{127, 128, 129, 255, 256, 257, 65535, 65536, 65537}[sym.Choose("n", 9)]
	op := opOf[sym.Choose("op", 3)]
	f := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: make([]gitdiff.Line, n)}
	for i := range f.Lines {
		f.Lines[i] = gitdiff.Line{Op: op, Line: "x\n"}
	}
	fill(f)
	f.OldPosition, f.NewPosition = 1, 1
	off := []int64{0, int64(n), 256, 65536, -int64(n), -256, -65536}[sym.Choose("off", 7)]
	p := []*int64{&f.OldLines, &f.NewLines, &f.LinesAdded, &f.LinesDeleted, &f.LeadingContext, &f.TrailingContext}[sym.Choose("field", 6)]
	was := f.Validate() == nil
	sym.Assert(was, "a long fragment with the right counts is invalid")
	*p += off
	sym.Assert((f.Validate() == nil) == (was && off == 0), "a wrong count is accepted")
}

// C20_long names and emails of 64, 255..257, 1000 and 5000 characters with an
// arbitrary one at one of three places.
func C20_long() {
	n := []int{64, 255, 256, 257, 1000, 5000}[sym.Choose("n", 6)]
	at := place("at", n)
	c := sym.String("c", 1)
	w := letters(at) + c + letters(n-1-at)
	if sym.Choose("what", 2) == 0 {
		checkIdentity(w + " <a@b>")
	} else {
		checkIdentity("N M <" + w + "@b>")
	}
}

// longMessage is a commit message that is large in one way: a long line, many
// lines in a paragraph, many paragraphs, or many blank lines, with an arbitrary byte.
func longMessage(indent string) string {
	c := notNewline("c")
	switch sym.Choose("large", 6) {
	case 5:
		n := []int{16, 17, 50, 500}[sym.Choose("n", 4)]
		at := place("at", n)
		return numbered(indent+"title ", at) + indent + c + "\n" + numbered(indent+"rest ", n-at-1) + "\n" + indent + "body"
	case 0:
		n := []int{4090, 4095, 4096, 4097, 30000, 65530 - len(indent)}[sym.Choose("n", 6)]
		return indent + "T\n\n" + indent + letters(n) + c + "w\n" + indent + "end"
	case 1:
		n := []int{4090, 4095, 4096, 4097, 30000, 65530 - len(indent)}[sym.Choose("n", 6)]
		return indent + "T" + letters(n) + c + "w\n" + indent + "more\n\n" + indent + "body"
	case 2:
		n := []int{100, 1000}[sym.Choose("n", 2)]
		return indent + "T\n" + indent + "U\n\n" + numbered(indent+"some words ", n) + indent + c + "\n" + indent + "end"
	case 3:
		n := []int{100, 500}[sym.Choose("n", 2)]
		return indent + "T\n\n" + strings.ReplaceAll(numbered(indent+"some words ", n), "\n", "\n\n") + indent + c + "\n\n" + indent + "end"
	default:
		n := []int{100, 1000}[sym.Choose("n", 2)]
		return indent + "T\n" + repeat("\n", n) + indent + c + "\n" + repeat(indent+"\n", n) + indent + "end"
	}
}

// C21_long messages with lines of 4090..65531 bytes in title or body, 100 or 1000
// lines, 16, 17, 50 or 500 title lines, 100 or 500 paragraphs, or 100 or 1000 blank lines, and an arbitrary byte.
func C21_long() { checkCommit(longMessage("    ")) }

// C22_long the same messages as body of a mail, before or after the first --- line.
func C22_long() {
	m := longMessage("")
	if sym.Choose("appendix", 2) == 1 {
		m = "b\n---\n" + m
	}
	checkMailBody(m)
}

// C22_long_subject subjects of 500, 1000 and 5000 characters, or with 10, 50 or 300
// tags, with an arbitrary character at one of three places, and titles of 30 to 300
// characters encoded in words of ten with an arbitrary byte.
func C22_long_subject() {
	c := sym.String("c", 1)
	switch sym.Choose("kind", 3) {
	case 0:
		n := []int{500, 1000, 5000}[sym.Choose("n", 3)]
		at := place("at", n)
		checkSubject("[PATCH] " + letters(at) + c + letters(n-1-at))
	case 1:
		n := []int{10, 50, 300}[sym.Choose("n", 3)]
		at := place("at", n)
		checkSubject(repeat("[PATCH] ", at) + c + repeat("Re: [PATCH]", n-1-at) + "title")
	case 2:
		n := []int{3, 10, 30}[sym.Choose("n", 3)]
		at := place("at", n)
		sym.Assume(c[0] < 0x80 && c[0] > ' ')
		enc, title := "", ""
		for i := 0; i < n; i++ {
			w := "k\xc3\xa4se brot"
			if i == at {
				w = "k\xc3\xa4se bro" + c
			}
			title += w
			if i > 0 {
				enc += "\n "
			}
			enc += qEncode(w)
		}
		h, err := mailHeader("[PATCH] "+enc, "")
		sym.Assert(err == nil, "a mail header is rejected")
		sym.Assert(h.Title == title && h.SubjectPrefix == "[PATCH] ", "a long encoded title is not decoded")
	}
}

// C25_late a malformed body line, fragment header, mode or binary line with an
// arbitrary byte behind 99 or 999 lines of text, fragment lines or binary data, or
// with a fixed one behind 100, 101, 4096, 9999 or 70000.
func C25_late() {
	n := []int{99, 999, 100, 101, 4096, 9999, 70000}[sym.Choose("n", 7)]
	c := "\t"
	if n == 99 || n == 999 {
		c = notNewline("c")
	} else if sym.Choose("c", 2) == 1 {
		c = ":"
	}
	const head = "diff --git a/x b/x\n"
	switch sym.Choose("kind", 4) {
	case 0:
		sym.Assume(c[0] < '0' || c[0] > '7')
		if c == "\t" {
			return
		}
		sym.Assume(c[0] > ' ')
		assertAt(repeat("text\n", n), head+"old mode "+c+"\n", 2)
	case 1:
		sym.Assume(strings.IndexByte(" +-\\\n", c[0]) < 0)
		assertAt(head+"--- a/x\n+++ b/x\n@@ -1,"+itoa(n+1)+" +1 @@\n"+repeat("-a\n", n), c+"b\n", 1)
	case 2:
		sym.Assume(c[0] < '0' || c[0] > '9')
		assertAt(head+"--- a/x\n+++ b/x\n@@ -1,"+itoa(n)+" +0,0 @@\n"+repeat("-a\n", n), "@@ -"+c+"9,1 +1,2 @@\n a\n+b\n", 1)
	case 3:
		sym.Assume(value85[c[0]] == 0)
		assertAt(head+"GIT binary patch\nliteral 3\n"+repeat("A00000\n", n), "A000"+c+"0\n\n", 1)
	}
}

// C01_far a fragment that deletes or inserts a line behind 31..33, 4095..4097, 8193 or
// 12000 or 70000 (131073) numbered lines of the source with an arbitrary byte in the first,
// middle or last line of them, followed by none, 2 or 5000 more.
func C01_far() {
	n := []int{31, 32, 33, 4095, 4096, 4097, 8193, 12000, 70000, 1<<17 + 1}[sym.Choose("n", pick(9, 10))]
	src := []byte(numbered("a", n+[]int{0, 2, 5000}[sym.Choose("more", 3)]))
	lines := splitLines(src)
	at := place("at", n)
	lines[at][0] = sym.Byte("c")
	f := &gitdiff.TextFragment{OldPosition: int64(n), NewPosition: int64(n)}
	old := "a" + itoa(n-1) + "\n"
	if sym.Choose("op", 2) == 0 {
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: old}}
	} else {
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpAdd, Line: old}}
	}
	checkApply(src, []*gitdiff.TextFragment{fill(f)})
}

// C19_far a source of 31..33, 4095..4097, 4100, 8191..8193 or 10000 numbered lines and a
// fragment that expects an arbitrary byte in one of its last two lines, or in the line after
// them or the hundredth, alone or after one that replaces the first line: the error names
// the first line that differs or is missing.
func C19_far() {
	n := []int{31, 32, 33, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 10000}[sym.Choose("n", 11)]
	src := []byte(numbered("a", n))
	p := n - 1 + []int{0, 1, 2, 100}[sym.Choose("at", 4)] // the line, from one
	c := sym.String("c", 1)
	old := gitdiff.Line{Op: gitdiff.OpDelete, Line: c + itoa(p-1) + "\n"}
	frags := []*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: int64(p), NewPosition: int64(p), Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "b\n"}, old}})}
	if sym.Choose("first", 2) == 1 {
		frags = append([]*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a0\n"}, {Op: gitdiff.OpAdd, Line: "z\n"}}})}, frags...)
	}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, textFile(frags...))
	switch {
	case p > n:
		e := applyErr(err)
		sym.Assert(isConflict(err) && e.Line == int64(n)+1 && e.Fragment == len(frags), "a missing line is not named")
	case c == "a":
		sym.Assert(err == nil, "a patch that matches the source is rejected")
	default:
		e := applyErr(err)
		sym.Assert(isConflict(err) && e.Line == int64(p) && e.Fragment == len(frags) && e.FragmentLine == 2, "a line that differs is not named")
	}
}
