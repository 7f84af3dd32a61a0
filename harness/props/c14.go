package props

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// slowReader delivers data in pieces: up to cut at the first call, then at
// most step bytes per call; it returns io.EOF with the last bytes or after
// them, and possibly an empty read before each piece.
type slowReader struct {
	b         string
	off       int
	cut, step int
	eager     bool
	empty     bool
	idle      bool
}

func (r *slowReader) Read(p []byte) (int, error) {
	if r.empty && !r.idle {
		r.idle = true
		return 0, nil
	}
	r.idle = false
	if r.off >= len(r.b) {
		return 0, io.EOF
	}
	end := len(r.b)
	if r.off < r.cut {
		end = r.cut
	} else if r.off+r.step < end {
		end = r.off + r.step
	}
	n := copy(p, r.b[r.off:end])
	r.off += n
	if r.eager && r.off == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

// lineStream is a reader that is also able to read up to a delimiter.
type lineStream struct {
	b   string
	off int
}

func (r *lineStream) Read(p []byte) (int, error) {
	if r.off >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.off:])
	r.off += n
	return n, nil
}

func (r *lineStream) ReadString(delim byte) (string, error) {
	for i := r.off; i < len(r.b); i++ {
		if r.b[i] == delim {
			s := r.b[r.off : i+1]
			r.off = i + 1
			return s, nil
		}
	}
	s := r.b[r.off:]
	r.off = len(r.b)
	return s, io.EOF
}

// checkDelivery asserts that r gives the result of parsing text at once.
func checkDelivery(text string, r io.Reader) {
	want, pre, werr := gitdiff.Parse(strings.NewReader(text))
	files, got, err := gitdiff.Parse(r)
	sym.Assert((err == nil) == (werr == nil), "the error depends on how the bytes are delivered")
	if err != nil {
		sym.Assert(err.Error() == werr.Error(), "the error text depends on how the bytes are delivered")
	}
	sym.Assert(got == pre, "the preamble depends on how the bytes are delivered")
	assertFiles(files, want)
}

// stream is a patch with three arbitrary bytes: text, text without final
// newline, binary, a corrupt one, or free text only.
func stream() string {
	c := sym.String("c", 3)
	switch sym.Choose("text", 5) {
	case 0:
		return "x" + c[:1] + "\ndiff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@\n " + c[1:2] + "\n-a\n+" + c[2:] + "\n"
	case 1:
		return c[:1] + "\n--- x\n+++ x\n@@ -1 +1 @@\n-a\n+" + c[1:]
	case 2:
		return "diff --git a/x b/x\nindex 1..2\nGIT binary patch\nliteral 3\nA0" + c + "0\n\n"
	case 3:
		return "diff --git a/x b/x\nold mode 100644\nnew mode 10075" + c[:1] + "\n" + c[1:] + "@@ -1"
	default:
		return c
	}
}

// C14_parse_split patches of five shapes with three arbitrary bytes, delivered
// in two pieces cut anywhere, io.EOF with or after the last bytes, with and
// without empty reads.
func C14_parse_split() {
	text := stream()
	cut := sym.Choose("cut", len(text)+1)
	eager := sym.Choose("eager", 2) == 1
	empty := !eager
	if sym.Thorough() {
		empty = sym.Choose("empty", 2) == 1
	}
	checkDelivery(text, &slowReader{b: text, cut: cut, step: len(text), eager: eager, empty: empty})
}

// C14_parse_pieces the same patches in pieces of 1..5 bytes, through a reader
// with its own ReadString, a bytes.Buffer, a bufio.Reader of 16 bytes, or a
// reader of the standard library (strings, bytes, section, limited, buffered)
// of which a first line was read already, or a reader with methods of other meaning.
func C14_parse_pieces() {
	text := stream()
	var r io.Reader
	const before = "@@ -1 +1 @@\n"
	skip := make([]byte, len(before))
	switch k := sym.Choose("reader", 15); k {
	case 14:
		r = &partReader{slowReader{b: text, step: 3}}
	case 8:
		r = strings.NewReader(before + text)
		io.ReadFull(r, skip)
	case 9:
		r = bytes.NewReader([]byte(before + text))
		io.ReadFull(r, skip)
	case 10:
		r = io.NewSectionReader(&memAt{[]byte("x" + before + text + "\n@@ -")}, 1, int64(len(before+text)))
		io.ReadFull(r, skip)
	case 11:
		r = bufio.NewReader(strings.NewReader(before + text))
		io.ReadFull(r, skip)
	case 12:
		r = bytes.NewBufferString(before + text)
		io.ReadFull(r, skip)
	case 13:
		r = io.LimitReader(strings.NewReader(before+text+"\n@@ -"), int64(len(before+text)))
		io.ReadFull(r, skip)
	case 5:
		r = &lineStream{b: text}
	case 6:
		r = bytes.NewBufferString(text)
	case 7:
		r = bufio.NewReaderSize(&slowReader{b: text, step: 7}, 16)
	default:
		r = &slowReader{b: text, step: k + 1, eager: sym.Choose("eager", 2) == 1}
	}
	checkDelivery(text, r)
}

// C14_parse_long lines of 4094..4098 and 8190..8194 bytes (the read buffer and
// twice the read buffer) in the preamble or in a fragment, with an arbitrary
// byte at the end, delivered at once, in pieces, or by a reader with ReadString.
func C14_parse_long() {
	n := 4094 + sym.Choose("len", 5) + 4096*sym.Choose("twice", 2)
	l := letters(n-2) + sym.String("c", 1)
	text := l + "\n--- x\n+++ x\n@@ -1 +1 @@\n-a\n+b\n"
	if sym.Choose("where", 2) == 1 {
		text = "--- x\n+++ x\n@@ -1,2 +1 @@\n-" + l + "\n-a\n+b"
	}
	var r io.Reader
	switch sym.Choose("reader", 4) {
	case 0:
		r = &slowReader{b: text, cut: 4096, step: 4095, eager: true}
	case 1:
		r = &slowReader{b: text, step: 1000, empty: true}
	case 2:
		r = &lineStream{b: text}
	case 3:
		r = &slowReader{b: text, step: len(text), eager: true}
	}
	checkDelivery(text, r)
}

// eagerAt returns io.EOF together with a read that ends exactly at the end.
type eagerAt struct{ b []byte }

func (e *eagerAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(e.b)) {
		return 0, io.EOF
	}
	n := copy(p, e.b[off:])
	if off+int64(n) == int64(len(e.b)) {
		return n, io.EOF
	}
	return n, nil
}

// lineAt gives access to lines besides bytes.
type lineAt struct{ memAt }

func (l *lineAt) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	all := splitLines(l.b)
	for i := range lines {
		if off+int64(i) >= int64(len(all)) {
			return i, io.EOF
		}
		lines[i] = all[off+int64(i)]
	}
	return len(lines), nil
}

// lineOnlyAt gives access to lines; bytes are only read to find out whether
// there are any.
type lineOnlyAt struct{ lineAt }

func (l *lineOnlyAt) ReadAt(p []byte, off int64) (int, error) {
	if len(p) > 2 || off > 0 {
		return 0, errBytes
	}
	return l.memAt.ReadAt(p, off)
}

var errBytes = errors.New("a source of lines is read by bytes")

// eagerLineAt returns io.EOF together with the last lines.
type eagerLineAt struct{ lineAt }

func (l *eagerLineAt) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	n, err := l.lineAt.ReadLinesAt(lines, off)
	if off+int64(n) >= int64(len(splitLines(l.b))) {
		err = io.EOF
	}
	return n, err
}

// partAt is a source with other methods, which are about something else than
// the whole of its bytes.
type partAt struct {
	memAt
	off int
}

func (p *partAt) Size() int64                            { return 1 << 20 }
func (p *partAt) Len() int                               { return 1 }
func (p *partAt) Bytes() []byte                          { return nil }
func (p *partAt) String() string                         { return "a source" }
func (p *partAt) Close() error                           { p.b = nil; return nil }
func (p *partAt) Seek(off int64, how int) (int64, error) { return 0, errFault }
func (p *partAt) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write([]byte("rest"))
	return int64(n), err
}

func (p *partAt) ReadByte() (byte, error) {
	p.off++
	return '\n', nil
}

func (p *partAt) Read(b []byte) (int, error) {
	if p.off++; p.off > 3 || len(b) == 0 {
		return 0, io.EOF
	}
	b[0] = '\n'
	return 1, nil
}

// partReader is a reader with other methods, which are about something else.
type partReader struct{ slowReader }

func (p *partReader) Size() int64                             { return 1 }
func (p *partReader) Len() int                                { return 1 }
func (p *partReader) Bytes() []byte                           { return nil }
func (p *partReader) String() string                          { return "a reader" }
func (p *partReader) Close() error                            { p.b = ""; return nil }
func (p *partReader) Seek(off int64, how int) (int64, error)  { p.off = 0; return 0, nil }
func (p *partReader) WriteTo(w io.Writer) (int64, error)      { return 0, nil }
func (p *partReader) ReadAt(b []byte, off int64) (int, error) { return 0, io.EOF }
func (p *partReader) ReadByte() (byte, error)                 { return 0, io.EOF }
func (p *partReader) ReadBytes(delim byte) ([]byte, error)    { return nil, io.EOF }
func (p *partReader) ReadSlice(delim byte) ([]byte, error)    { return nil, io.EOF }
func (p *partReader) ReadLine() ([]byte, bool, error)         { return nil, false, io.EOF }
func (p *partReader) ReadRune() (rune, int, error)            { return 0, 0, io.EOF }
func (p *partReader) Peek(n int) ([]byte, error)              { return nil, io.EOF }
func (p *partReader) Reset(r io.Reader)                       { p.b = "" }

// partSink is a destination with other methods.
type partSink struct {
	sink
}

func (p *partSink) Size() int                                { return 0 }
func (p *partSink) Len() int                                 { return len(p.b) }
func (p *partSink) Available() int                           { return 0 }
func (p *partSink) Reset()                                   { p.b = nil }
func (p *partSink) Truncate(n int64) error                   { p.b = nil; return nil }
func (p *partSink) Close() error                             { p.b = nil; return errFault }
func (p *partSink) Seek(off int64, how int) (int64, error)   { p.b = nil; return 0, nil }
func (p *partSink) WriteAt(b []byte, off int64) (int, error) { return 0, errFault }
func (p *partSink) WriteByte(b byte) error                   { return errFault }

// stringSink accepts strings and whole readers, too.
type stringSink struct{ sink }

func (s *stringSink) WriteString(x string) (int, error) {
	s.b = append(s.b, x...)
	return len(x), nil
}

func (s *stringSink) ReadFrom(r io.Reader) (int64, error) {
	var buf [3]byte
	total := int64(0)
	for {
		n, err := r.Read(buf[:])
		s.b = append(s.b, buf[:n]...)
		total += int64(n)
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// checkSource asserts that Apply does the same for every source and
// destination as for plain ones.
func checkSource(src []byte, f *gitdiff.File) {
	var want sink
	werr := gitdiff.Apply(&want, &memAt{src}, f)
	var r io.ReaderAt
	kinds := 6
	if len(f.TextFragments) > 0 {
		kinds = 7
	}
	kind := sym.Choose("source", kinds)
	dest := sym.Choose("dest", 6)
	sym.Assume(dest < 3 || kind == 2)
	switch kind {
	case 6:
		r = &lineOnlyAt{lineAt{memAt{src}}}
	case 4:
		r = &eagerLineAt{lineAt{memAt{src}}}
	case 5:
		r = &partAt{memAt: memAt{src}}
	case 0:
		r = &eagerAt{src}
	case 1:
		r = &lineAt{memAt{src}}
	case 2:
		b := bytes.NewReader(src)
		b.Seek(1, io.SeekStart)
		r = b
	case 3:
		s := io.NewSectionReader(&eagerAt{append([]byte{'\n'}, src...)}, 1, int64(len(src)))
		s.Seek(0, io.SeekEnd)
		r = s
	}
	if kind == 2 && sym.Choose("string", 2) == 1 {
		s := strings.NewReader(string(src))
		s.Seek(0, io.SeekEnd)
		r = s
	}
	var got []byte
	var err error
	switch dest {
	case 5:
		var d partSink
		err = gitdiff.Apply(&d, r, f)
		got = d.b
	case 3:
		var d strings.Builder
		d.WriteString("before")
		err = gitdiff.Apply(&d, r, f)
		got = []byte(d.String()[6:])
	case 4:
		var d sink
		w := bufio.NewWriterSize(&d, 16)
		err = gitdiff.Apply(w, r, f)
		w.Flush()
		got = d.b
	case 0:
		var d sink
		err, got = gitdiff.Apply(&d, r, f), d.b
	case 1:
		var d stringSink
		err = gitdiff.Apply(&d, r, f)
		got = d.b
	case 2:
		var d bytes.Buffer
		err = gitdiff.Apply(&d, r, f)
		got = d.Bytes()
	}
	if dest == 0 {
		// the source is not used up
		var d sink
		again := gitdiff.Apply(&d, r, f)
		sym.Assert((err == nil) == (again == nil) && sym.EqBytes(d.b, got), "the result depends on earlier uses of the source")
	}
	sym.Assert((err == nil) == (werr == nil), "the error depends on the source or destination")
	if err != nil {
		sym.Assert(err.Error() == werr.Error(), "the error text depends on the source or destination")
		sym.Assert(isConflict(err) == isConflict(werr), "the kind of error depends on the source or destination")
	}
	sym.Assert(sym.EqBytes(got, want.b), "the output depends on the source or destination")
}

func textFile(frags ...*gitdiff.TextFragment) *gitdiff.File {
	return &gitdiff.File{OldName: "f", NewName: "f", TextFragments: frags}
}

// C14_apply_text source of 0..4 (5) arbitrary bytes, a fragment of one or two
// lines of 0..2 arbitrary bytes at old position 0..3 (4), seven kinds of
// sources (one with methods of other meaning) and six of destinations.
func C14_apply_text() {
	src := sym.Bytes("src", sym.Choose("srclen", pick(5, 6)))
	f := &gitdiff.TextFragment{NewPosition: int64(sym.Choose("newpos", 2))}
	for i, n := 0, 1+sym.Choose("lines", 2); i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 1, 2))
	}
	fill(f)
	f.OldPosition = int64(sym.Choose("pos", pick(4, 5)))
	checkSource(src, textFile(f))
}

// C14_apply_big sources of 1023..1025, 2047..2049 and 32767..32769 bytes in
// lines of 100 bytes with an arbitrary last byte, unchanged or with a fragment
// near the start or at the end.
func C14_apply_big() {
	n := []int{1023, 1024, 1025, 2047, 2048, 2049, 32767, 32768, 32769}[sym.Choose("n", 9)]
	src := hundreds(n)
	line, tail := string(src[100:200]), string(src[n-n%100:n-1])
	src[n-1] = sym.Byte("last")
	lines := int64(n/100) + 1
	switch sym.Choose("frag", 3) {
	case 0:
		checkSource(src, textFile())
	case 1:
		checkSource(src, textFile(fill(&gitdiff.TextFragment{OldPosition: 2, NewPosition: 2, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: line}, {Op: gitdiff.OpAdd, Line: "z"}}})))
	case 2:
		checkSource(src, textFile(fill(&gitdiff.TextFragment{OldPosition: lines, NewPosition: lines, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: tail + sym.String("old", 1)}, {Op: gitdiff.OpAdd, Line: "z"}}})))
	}
}

// C14_apply_binary a literal of 0..3 arbitrary bytes, and deltas that copy and
// insert, over a source of 0..3 arbitrary bytes.
func C14_apply_binary() {
	src := sym.Bytes("src", sym.Choose("srclen", 4))
	f := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true}
	switch sym.Choose("kind", 3) {
	case 0:
		f.BinaryFragment = literalFrag(sym.Bytes("data", sym.Choose("len", 4)))
	case 1:
		f.BinaryFragment = deltaFrag([]byte{byte(len(src)), 3, 0x91, byte(sym.Int("off", 0, 3)), byte(sym.Int("size", 1, 3)), 1, sym.Byte("b")})
	case 2:
		f.BinaryFragment = deltaFrag([]byte{byte(sym.Int("srcsize", 0, 4)), 2, 2, sym.Byte("a"), sym.Byte("b")})
	}
	checkSource(src, f)
}

// C14_damaged six whole patches with one byte anywhere missing, replaced or preceded by an
// arbitrary one, or cut, in pieces of one or seven bytes or through a reader with its own
// ReadString.
func C14_damaged() {
	text := damaged(wholePatches[sym.Choose("patch", len(wholePatches))])
	var r io.Reader
	switch sym.Choose("reader", pick(2, 3)) {
	case 0:
		r = &slowReader{b: text, step: 1, eager: true}
	case 1:
		r = &lineStream{b: text}
	case 2:
		r = &slowReader{b: text, step: 7}
	}
	checkDelivery(text, r)
}
