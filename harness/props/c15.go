package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

var errFault = errors.New("injected failure")

// faultErr is the error of an injected failure: of its own, wrapped, one
// with a meaning elsewhere, or one of this package.
func faultErr() error { return faultErrs[sym.Choose("error", 5)] }

var faultErrs = [5]error{
	errFault,
	io.ErrUnexpectedEOF,
	fmt.Errorf("connection: %w", io.EOF),
	fmt.Errorf("device: %w", errFault),
	fmt.Errorf("inner: %w", gitdiff.Apply(&sink{}, &memAt{}, &gitdiff.File{IsBinary: true})),
}

// faultAt is a source whose k-th operation fails with err after part bytes or
// lines; without err the source ends early, at its start, from there on.
type faultAt struct {
	memAt
	k, part int
	err     error
	ops     int
	fired   bool
}

// next reports whether the operation fails.
func (r *faultAt) next() bool {
	r.ops++
	if r.ops-1 == r.k || (r.err == nil && r.ops > r.k) {
		r.fired = true
		return true
	}
	return false
}

func (r *faultAt) ReadAt(p []byte, off int64) (int, error) {
	if !r.next() {
		return r.memAt.ReadAt(p, off)
	}
	if r.err == nil {
		return 0, io.EOF
	}
	n := r.part
	if n > len(p) {
		n = len(p)
	}
	m, _ := r.memAt.ReadAt(p[:n], off)
	return m, r.err
}

// faultLines is a faultAt with line access of its own.
type faultLines struct{ faultAt }

func (r *faultLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	l := &lineAt{r.memAt}
	if !r.next() {
		return l.ReadLinesAt(lines, off)
	}
	if r.err == nil {
		return 0, io.EOF
	}
	n := r.part
	if n > len(lines) {
		n = len(lines)
	}
	m, _ := l.ReadLinesAt(lines[:n], off)
	return m, r.err
}

// faultSink is a destination whose k-th write takes part bytes only and
// returns err, which is nil for a short write.
type faultSink struct {
	b       []byte
	k, part int
	err     error
	ops     int
	fired   bool
	after   bool
}

func (s *faultSink) Write(p []byte) (int, error) {
	s.ops++
	if s.fired {
		s.after = true
	}
	if s.ops-1 == s.k {
		n := s.part
		if n > len(p) {
			n = len(p)
		}
		s.b = append(s.b, p[:n]...)
		if s.err != nil || n < len(p) {
			s.fired = true
		}
		return n, s.err
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// faultStringSink is a faultSink that accepts strings and whole readers, too.
type faultStringSink struct{ *faultSink }

func (s faultStringSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s faultStringSink) ReadFrom(r io.Reader) (int64, error) {
	var buf [4]byte
	total := int64(0)
	for {
		n, err := r.Read(buf[:])
		if n > 0 {
			m, werr := s.Write(buf[:n])
			total += int64(m)
			if werr == nil && m < n {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// faultFile is a source and a file that applies to it, with three arbitrary
// bytes: text fragments in the middle, at the end, a new and a deleted file,
// none, a literal and a delta. early is the number of source operations after
// which a source that ends early must be noticed.
func faultFile() (src []byte, f *gitdiff.File, early int) {
	c := sym.Bytes("c", 3)
	line := func(i int) string { return string(c[i:i+1]) + "\n" }
	bin := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true}
	for i := range c {
		sym.Assume(c[i] != '\n')
	}
	switch sym.Choose("file", 8) {
	case 0: // change in the middle
		src = []byte("a\n" + line(0) + "b\n" + line(1))
		return src, textFile(fill(&gitdiff.TextFragment{OldPosition: 2, NewPosition: 2, Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: line(0)}, {Op: gitdiff.OpAdd, Line: line(2)}}})), 1
	case 1: // two fragments, the second at the end
		src = []byte("a\n" + line(0) + "b\n" + line(1))
		return src, textFile(
			fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{
				{Op: gitdiff.OpContext, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: line(2)}}}),
			fill(&gitdiff.TextFragment{OldPosition: 3, NewPosition: 4, Lines: []gitdiff.Line{
				{Op: gitdiff.OpContext, Line: "b\n"}, {Op: gitdiff.OpDelete, Line: line(1)}}})), 1
	case 2: // new file
		return nil, textFile(fill(&gitdiff.TextFragment{NewPosition: 1, Lines: []gitdiff.Line{
			{Op: gitdiff.OpAdd, Line: line(0)}, {Op: gitdiff.OpAdd, Line: line(1) + line(2)}}})), 99
	case 3: // deleted file
		src = []byte(line(0) + line(1))
		return src, textFile(fill(&gitdiff.TextFragment{OldPosition: 1, Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: line(0)}, {Op: gitdiff.OpDelete, Line: line(1)}}})), 1
	case 4: // insertion at the start
		src = []byte(line(0) + "a")
		return src, textFile(fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 2, Lines: []gitdiff.Line{
			{Op: gitdiff.OpAdd, Line: line(1)}}})), 1
	case 5: // no fragments
		return c, textFile(), 99
	case 6:
		bin.BinaryFragment = literalFrag(c)
		return []byte("old"), bin, 99
	default:
		bin.BinaryFragment = deltaFrag([]byte{3, 6, 0x91, 1, 2, 1, c[0], 0x91, 0, 3})
		return c, bin, 1
	}
}

// applyVia applies f in one call or through an applier.
func applyVia(dst io.Writer, src io.ReaderAt, f *gitdiff.File) error {
	if sym.Choose("api", 2) == 0 {
		return gitdiff.Apply(dst, src, f)
	}
	if f.IsBinary {
		a := gitdiff.NewBinaryApplier(dst, src)
		if err := a.ApplyFragment(f.BinaryFragment); err != nil {
			return err
		}
		return a.Close()
	}
	a := gitdiff.NewTextApplier(dst, src)
	for _, frag := range f.TextFragments {
		if err := a.ApplyFragment(frag); err != nil {
			return err
		}
	}
	return a.Close()
}

func isPrefix(b, of []byte) bool {
	return len(b) <= len(of) && sym.EqBytes(b, of[:len(b)])
}

// C15_source every one of the first 9 (16) ReadAt (or ReadLinesAt) calls fails
// with one of four errors after 0, 1, 2 or all bytes (lines), or finds the
// source empty; eight files with three arbitrary bytes.
func C15_source() {
	src, f, early := faultFile()
	var want sink
	sym.Assert(gitdiff.Apply(&want, &memAt{src}, f) == nil, "a patch does not apply to its source")
	fault := faultAt{memAt: memAt{src}, k: sym.Choose("k", pick(9, 16))}
	ends := sym.Choose("ends", 2) == 1
	if ends {
		if fault.k < early {
			return
		}
	} else {
		fault.part = []int{0, 1, 2, 1 << 20}[sym.Choose("part", 4)]
		fault.err = faultErr()
	}
	lines := &faultLines{fault}
	r := &lines.faultAt
	var dst sink
	var err error
	if sym.Choose("lines", 2) == 1 {
		err = applyVia(&dst, lines, f)
		if ends {
			// a source that counts lines itself may end where it likes
			sym.Assert(isPrefix(dst.b, want.b), "wrong bytes were written before a failure")
			return
		}
	} else {
		err = applyVia(&dst, r, f)
	}
	if !r.fired {
		sym.Reach("no failure")
		sym.Assert(err == nil && sym.EqBytes(dst.b, want.b), "a patch does not apply without a failure")
		return
	}
	sym.Reach("failure")
	sym.Assert(isPrefix(dst.b, want.b), "wrong bytes were written before a failure")
	sym.Assert(err != nil, "a failure of the source is not reported")
	if !ends {
		sym.Assert(errors.Is(err, fault.err), "the error does not match the failure of the source")
		sym.Assert(!isConflict(err), "a failure of the source is reported as a conflict")
	}
}

// C15_destination every one of the first 8 (14) writes fails with one of four
// errors or io.EOF after 0, 1, 2 or all bytes, or takes only 0, 1 or 2 bytes without an
// error; eight files with three arbitrary bytes; a destination with
// and without WriteString and ReadFrom.
func C15_destination() {
	src, f, _ := faultFile()
	var want sink
	sym.Assert(gitdiff.Apply(&want, &memAt{src}, f) == nil, "a patch does not apply to its source")
	dst := &faultSink{k: sym.Choose("k", pick(8, 14)), part: []int{0, 1, 2, 1 << 20}[sym.Choose("part", 4)]}
	switch sym.Choose("short", 3) {
	case 0:
		dst.err = faultErr()
	case 1:
		dst.err = io.EOF
	}
	var err error
	var w io.Writer = dst
	if sym.Choose("strings", 2) == 1 {
		w = faultStringSink{dst}
	}
	if sym.Choose("lines", 2) == 1 {
		err = applyVia(w, &lineAt{memAt{src}}, f)
	} else {
		err = applyVia(w, &memAt{src}, f)
	}
	if !dst.fired {
		sym.Reach("no failure")
		sym.Assert(err == nil && sym.EqBytes(dst.b, want.b), "a patch does not apply without a failure")
		return
	}
	sym.Reach("failure")
	sym.Assert(isPrefix(dst.b, want.b), "wrong bytes were written before a failure")
	sym.Assert(!dst.after, "data is written after a failed write")
	sym.Assert(err != nil, "a failure of the destination is not reported")
	if dst.err == io.EOF {
		sym.Assert(!isConflict(err), "a failure of the destination is reported as a conflict")
	} else if dst.err != nil {
		sym.Assert(errors.Is(err, dst.err), "the error does not match the failure of the destination")
		sym.Assert(!isConflict(err), "a failure of the destination is reported as a conflict")
	}
}

// C15_big a source of 1000..1100 lines (more than one read of the line index)
// or 33000 bytes whose k-th of the first 8 reads fails or is at the end.
func C15_big() {
	n := []int{1000, 1023, 1024, 1025, 2100, 33000}[sym.Choose("n", 6)]
	src := []byte(repeat("\n", n))
	size := 1
	if n == 33000 {
		src, size = hundreds(n), 100
	}
	src[n-2] = sym.Byte("c")
	f := textFile()
	switch sym.Choose("frag", 3) {
	case 1:
		line := string(src[2*size : 3*size])
		f = textFile(fill(&gitdiff.TextFragment{OldPosition: 3, NewPosition: 3, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: line}}}))
	case 2:
		p := int64(n/size) - 4
		line := string(src[int(p-1)*size : int(p)*size])
		f = textFile(fill(&gitdiff.TextFragment{OldPosition: p, NewPosition: p, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: line}}}))
	}
	var want sink
	sym.Assert(gitdiff.Apply(&want, &memAt{src}, f) == nil, "a patch does not apply to its source")
	fault := &faultAt{memAt: memAt{src}, k: sym.Choose("k", 8), part: []int{0, 700}[sym.Choose("part", 2)], err: errFault}
	var dst sink
	err := gitdiff.Apply(&dst, fault, f)
	if !fault.fired {
		sym.Assert(err == nil && sym.EqBytes(dst.b, want.b), "a patch does not apply without a failure")
		return
	}
	sym.Assert(errors.Is(err, errFault), "a failure of the source is not reported")
	sym.Assert(isPrefix(dst.b, want.b), "wrong bytes were written before a failure")
}

// faultReader fails once (or for ever) after k bytes, with the last bytes
// before or after them.
type faultReader struct {
	b      string
	off, k int
	err    error
	with   bool
	once   bool
	fired  bool
}

func (r *faultReader) fail() bool {
	if r.off == r.k && !(r.fired && r.once) {
		r.fired = true
		return true
	}
	return false
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.off == r.k && r.fail() {
		return 0, r.err
	}
	if r.off >= len(r.b) {
		return 0, io.EOF
	}
	end := len(r.b)
	if r.off < r.k {
		end = r.k
	}
	n := copy(p, r.b[r.off:end])
	r.off += n
	if r.with && r.off == r.k && r.fail() {
		return n, r.err
	}
	return n, nil
}

// faultLineReader is a faultReader with ReadString.
type faultLineReader struct{ faultReader }

func (r *faultLineReader) ReadString(delim byte) (string, error) {
	from := r.off
	for {
		if r.off == r.k && r.fail() {
			return r.b[from:r.off], r.err
		}
		if r.off >= len(r.b) {
			return r.b[from:], io.EOF
		}
		r.off++
		if r.b[r.off-1] == delim {
			return r.b[from:r.off], nil
		}
	}
}

// faultText is a patch with two arbitrary bytes.
func faultText() string {
	c := sym.String("c", 2)
	switch sym.Choose("text", 7) {
	case 0:
		return "x" + c[:1] + "\ndiff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+" + c[1:] + "\n"
	case 1:
		return "--- x\n+++ x\n@@ -1 +1 @@\n-a\n\\ no\n+" + c[1:] + "\n--- y\n+++ y\n@@ -1 +1 @@\n-a\n+b"
	case 2:
		return "diff --git a/x b/x\nindex 1..2\nGIT binary patch\nliteral 2\nA0" + c + "000\n\nliteral 0\n\n\n"
	case 3:
		return "diff --git a/x b/x\nold mode 100644\nnew mode 100755\ndiff --git a/y b/y\nrename from y\nrename to z\n" + c
	case 4:
		return "--- x" + c[:1] + "\n+++ y\n@@ z\n--- x\n+++ x\n+@@" + c[1:] + "\n"
	case 5:
		return "a\nb\n" + c + "\n@@ -1 +1 @@\n-a\n+b\n"
	default:
		return "Binary files a/x and b/x differ\ndiff --git a/x b/x\nindex 1..2\nBinary files a/x and b/x differ\n" + c
	}
}

// C15_parse seven patches with two arbitrary bytes, a failure of the reader
// after any number of bytes with one of four errors, once or for ever, with or
// after the last bytes, and readers with and without ReadString.
func C15_parse() {
	text := faultText()
	r := faultReader{b: text, k: sym.Choose("k", len(text)+1)}
	var in io.Reader
	kind := sym.Choose("kind", pick(6, 16))
	// every reader with every error, or each error with one of the readers
	r.err = faultErrs[kind&3]
	mode := kind >> 2
	if !sym.Thorough() {
		mode = []int{0, 3, 2, 1, 2, 0}[kind]
	}
	r.once = mode&1 == 1
	if mode < 2 {
		r.with = mode == 0
		in = &r
	} else {
		in = &faultLineReader{r}
	}
	want, pre, werr := gitdiff.Parse(strings.NewReader(text))
	files, got, err := gitdiff.Parse(in)
	if errors.Is(err, r.err) {
		sym.Reach("reported")
	} else {
		sym.Assert(err != nil && werr != nil && err.Error() == werr.Error(), "a failure of the reader is not reported")
	}
	sym.Assert(len(files) <= len(want), "more files after a failure of the reader")
	assertFiles(files, want[:len(files)])
	if len(files) > 0 {
		sym.Assert(got == pre, "the preamble depends on a later failure of the reader")
	}
}

// C15_appliers a text or binary applier with or without an applied fragment (text,
// literal or delta) that is closed; any of the first 7 writes or reads of the source
// (a destination with or without WriteString) fails with one of four errors (or a write is short): the call in which it happens
// reports it.
func C15_appliers() {
	c := sym.Bytes("c", 2)
	sym.Assume(sym.And(c[0] != '\n', c[1] != '\n'))
	src := []byte{c[0], '\n', c[1], '\n', 'z'}
	dst := &faultSink{k: sym.Choose("k", 7), part: sym.Choose("part", 2)}
	in := &faultAt{memAt: memAt{src}, k: 1 << 30, err: faultErr()}
	if sym.Bool("source") {
		in.k, dst.k = dst.k, 1<<30
	} else if sym.Bool("short") {
		dst.err = nil
	} else {
		dst.err = in.err
	}
	var w io.Writer = dst
	if sym.Choose("strings", 2) == 1 {
		w = faultStringSink{dst}
	}
	failed := func() bool { return in.fired || dst.fired }
	check := func(err error) {
		sym.Assert((err != nil) == failed(), "a failure is not reported by the call in which it happens")
		if err == nil {
			return
		}
		if dst.err != nil || in.fired {
			sym.Assert(errors.Is(err, in.err), "the error does not match the failure")
		}
		sym.Assert(!isConflict(err), "a failure is reported as a conflict")
	}
	if sym.Bool("binary") {
		a := gitdiff.NewBinaryApplier(w, in)
		switch sym.Choose("fragment", 3) {
		case 1:
			check(a.ApplyFragment(literalFrag(c)))
		case 2:
			check(a.ApplyFragment(deltaFrag([]byte{5, 3, 0x90, 2, 1, c[0]})))
		}
		if !failed() {
			check(a.Close())
		}
		return
	}
	a := gitdiff.NewTextApplier(w, in)
	for i, n := 0, sym.Choose("fragments", 3); i < n && !failed(); i++ {
		check(a.ApplyFragment(fill(&gitdiff.TextFragment{OldPosition: int64(i + 1), NewPosition: int64(i + 1), Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: string(src[2*i : 2*i+2])}, {Op: gitdiff.OpAdd, Line: "n\n"}}})))
	}
	if !failed() {
		check(a.Close())
	}
}

// C15_parse_completed two file diffs of any of thirteen kinds, each followed by six lines
// of text with an arbitrary byte, and a reader that fails in the fifth or sixth line of
// text behind one of them or later: the diffs before are returned.
func C15_parse_completed() {
	mid := "one\ntwo\nthree\nfour\nfive" + notNewline("c") + "\nsix\n"
	kind := sym.Choose("kind", 13)
	one, two := diffKind(kind, "x"), diffKind((kind+3)%13, "y")
	text := one + mid + two + mid
	want := parseEach([]string{one, two})
	n := 1
	k := len(one) + 18 + sym.Choose("k", 20)
	if sym.Choose("second", 2) == 1 {
		n, k = 2, len(one+mid+two)+18+sym.Choose("k", 11)
	}
	if k > len(text) {
		return
	}
	r := faultReader{b: text, k: k, err: errFault, with: sym.Choose("with", 2) == 1, once: sym.Choose("once", 2) == 1}
	var in io.Reader = &r
	if sym.Choose("lines", 2) == 1 {
		in = &faultLineReader{r}
	}
	files, pre, err := gitdiff.Parse(in)
	sym.Assert(errors.Is(err, errFault), "a failure of the reader is not reported")
	sym.Assert(pre == "", "wrong preamble")
	sym.Assert(len(files) >= n, "files completed before a failure of the reader are missing")
	assertFiles(files, want[:len(files)])
}
