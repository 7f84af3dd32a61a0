package props

import (
	"io"
	"os"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// outcome is everything a call returned or wrote.
type outcome struct {
	Files  []*gitdiff.File
	Hdr    *gitdiff.PatchHeader
	Text   string
	Out    []byte
	N      int64
	Offset int
	Err    string
	Pos    [3]int64 // where an ApplyError was
	err    error
}

func (o *outcome) fail(err error) *outcome {
	if err != nil {
		o.Err, o.Pos, o.err = err.Error(), errorPos(err), err
	}
	return o
}

func errorPos(err error) [3]int64 {
	if e, ok := err.(*gitdiff.ApplyError); ok {
		return [3]int64{e.Line, int64(e.Fragment), int64(e.FragmentLine)}
	}
	return [3]int64{}
}

func copyBin(f *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
	if f == nil {
		return nil
	}
	c := *f
	c.RawData = append([]byte(nil), f.RawData...)
	return &c
}

func copyIdentity(p *gitdiff.PatchIdentity) *gitdiff.PatchIdentity {
	if p == nil {
		return nil
	}
	c := *p
	return &c
}

// copy is a deep copy.
func (o *outcome) copy() *outcome {
	c := *o
	c.Out = append([]byte(nil), o.Out...)
	c.Files, c.err = nil, nil
	for _, f := range o.Files {
		g := *f
		g.TextFragments = nil
		for _, t := range f.TextFragments {
			g.TextFragments = append(g.TextFragments, cloneFrag(t))
		}
		g.BinaryFragment, g.ReverseBinaryFragment = copyBin(f.BinaryFragment), copyBin(f.ReverseBinaryFragment)
		c.Files = append(c.Files, &g)
	}
	if o.Hdr != nil {
		h := *o.Hdr
		h.Author, h.Committer = copyIdentity(h.Author), copyIdentity(h.Committer)
		c.Hdr = &h
	}
	return &c
}

// scribble changes everything a caller may change in a result.
func (o *outcome) scribble() {
	for i := range o.Out {
		o.Out[i] ^= 0xff
	}
	for i, f := range o.Files {
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b != nil {
				for i := range b.RawData {
					b.RawData[i] ^= 0xff
				}
				b.Size = -1
				b.RawData = append(b.RawData, "xyz"...)
			}
		}
		for j, t := range f.TextFragments {
			for k := range t.Lines {
				t.Lines[k] = gitdiff.Line{Op: 7, Line: "scribble"}
			}
			t.Lines = append(t.Lines, gitdiff.Line{Line: "more"})
			t.OldPosition, t.Comment = -7, "scribble"
			f.TextFragments[j] = nil
		}
		f.TextFragments = append(f.TextFragments, nil)
		*f = gitdiff.File{OldName: "scribble"}
		o.Files[i] = nil
	}
	if e, ok := o.err.(*gitdiff.ApplyError); ok {
		e.Line, e.Fragment, e.FragmentLine = 7, 7, 7
	}
	if o.Hdr != nil {
		if o.Hdr.Author != nil {
			o.Hdr.Author.Name = "scribble"
		}
		if o.Hdr.Committer != nil {
			o.Hdr.Committer.Email = "scribble"
		}
		*o.Hdr = gitdiff.PatchHeader{Title: "scribble"}
	}
}

func sameIdentity(a, b *gitdiff.PatchIdentity) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

// assertOutcome asserts that two outcomes are equal.
func assertOutcome(got, want *outcome, why string) {
	sym.Assert(got.Err == want.Err && got.Pos == want.Pos, why+" changes an error")
	if got.err != nil {
		sym.Assert(got.err.Error() == got.Err && errorPos(got.err) == got.Pos, why+" changes an error that was returned")
	}
	sym.Assert(got.Text == want.Text, why+" changes a text")
	sym.Assert(sym.EqBytes(got.Out, want.Out), why+" changes the output")
	sym.Assert(got.N == want.N, why+" changes a time")
	sym.Assert(got.Offset == want.Offset, why+" changes a time zone")
	assertFiles(got.Files, want.Files)
	a, b := got.Hdr, want.Hdr
	sym.Assert((a == nil) == (b == nil), why+" changes a header")
	if a != nil {
		sym.Assert(a.SHA == b.SHA && a.Title == b.Title && a.Body == b.Body && a.BodyAppendix == b.BodyAppendix && a.SubjectPrefix == b.SubjectPrefix, why+" changes a header")
		sym.Assert(sameIdentity(a.Author, b.Author) && sameIdentity(a.Committer, b.Committer), why+" changes an identity")
		sym.Assert(a.AuthorDate.Equal(b.AuthorDate) && a.CommitterDate.Equal(b.CommitterDate), why+" changes a date")
	}
}

// hook is called whenever a call uses its reader, source or destination.
type hook struct {
	f    func()
	at   int
	n    int
	busy bool
}

func (h *hook) call() {
	if h == nil || h.busy {
		return
	}
	if h.n++; h.n == h.at {
		h.busy = true
		h.f()
		h.busy = false
	}
}

type hookReader struct {
	b string
	h *hook
}

func (r *hookReader) Read(p []byte) (int, error) {
	r.h.call()
	if r.b == "" {
		return 0, io.EOF
	}
	n := len(r.b)/2 + 1 // the text arrives in several pieces
	if n > len(p) {
		n = len(p)
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	r.h.call()
	return n, nil
}

type hookAt struct {
	memAt
	h *hook
}

func (r *hookAt) ReadAt(p []byte, off int64) (int, error) {
	r.h.call()
	n, err := r.memAt.ReadAt(p, off)
	r.h.call()
	return n, err
}

type hookSink struct {
	sink
	h *hook
}

func (s *hookSink) Write(p []byte) (int, error) {
	s.h.call()
	n, err := s.sink.Write(p)
	s.h.call()
	return n, err
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errFault }

// brokenAt fails beyond the first n bytes.
type brokenAt struct {
	memAt
	n int64
}

func (r *brokenAt) ReadAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) > r.n {
		return 0, errFault
	}
	return r.memAt.ReadAt(p, off)
}

// brokenSink fails after n writes.
type brokenSink struct {
	sink
	n int
}

func (s *brokenSink) Write(p []byte) (int, error) {
	if s.n--; s.n < 0 {
		return 0, errFault
	}
	return s.sink.Write(p)
}

func parseCall(text string) func(*hook) *outcome {
	return func(h *hook) *outcome {
		files, pre, err := gitdiff.Parse(&hookReader{text, h})
		return (&outcome{Files: files, Text: pre}).fail(err)
	}
}

func applyCall(src []byte, f *gitdiff.File) func(*hook) *outcome {
	return func(h *hook) *outcome {
		dst := &hookSink{h: h}
		err := gitdiff.Apply(dst, &hookAt{memAt{src}, h}, f)
		return (&outcome{Out: dst.b}).fail(err)
	}
}

func headerCall(text string) func(*hook) *outcome {
	return func(*hook) *outcome {
		hdr, err := gitdiff.ParsePatchHeader(text)
		return (&outcome{Hdr: hdr}).fail(err)
	}
}

func dateCall(s string) func(*hook) *outcome {
	return func(*hook) *outcome {
		t, err := gitdiff.ParsePatchDate(s)
		_, offset := t.Zone()
		return (&outcome{N: t.Unix(), Offset: offset}).fail(err)
	}
}

func textOf(s func() string) func(*hook) *outcome {
	return func(*hook) *outcome { return &outcome{Text: s()} }
}

const nCalls = 31

// call is one of the calls of the package on its own values, two bytes of which
// are c.
func call(k int, name, c string) func(*hook) *outcome {
	at := func(i int) []byte { return []byte{c[i]} }
	text := &gitdiff.File{OldName: "x", NewName: "x", TextFragments: []*gitdiff.TextFragment{
		fill(&gitdiff.TextFragment{OldPosition: 2, NewPosition: 2, Comment: name, Lines: []gitdiff.Line{
			{Op: gitdiff.OpContext, Line: c[:1] + "\n"}, {Op: gitdiff.OpDelete, Line: "o\n"}, {Op: gitdiff.OpAdd, Line: name + c[1:] + "\n"}}})}}
	switch k {
	case 0:
		return parseCall("pre " + c[:1] + "\ndiff --git a/" + name + " b/" + name + "\nindex 1..2 100644\n--- a/" + name + "\n+++ b/" + name + "\n@@ -1,2 +1,2 @@ " + name + "\n " + c + "\n-a\n+" + c[1:] + "\n")
	case 1:
		return parseCall("diff --git \"a/\\1" + digit(c[0], 6) + "1" + name + "\" \"b/\\1" + digit(c[0], 6) + "1" + name + "\"\nold mode 100644\nnew mode 10075" + string(rune('0'+c[1]&7)) + "\n")
	case 2:
		data := []byte(name + "xxxx")
		data[0], data[1] = c[0], c[1]
		return parseCall("diff --git a/x b/x\nGIT binary patch\n" + gitBinary(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(data)), RawData: data}) +
			gitBinary(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(data)), RawData: data}))
	case 3:
		return parseCall("--- " + name + "\t2005-04-07 22:13:1" + digit(c[0], 10) + "\n+++ " + name + "\n@@ -1 +1 @@\n-" + c[1:] + "\n+" + name + "\n\\ No newline at end of file\n")
	case 4:
		return parseCall("diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@" + c + name + "\n-a\n+b\n@@ -" + digit(c[0], 10) + " +9 @@\n-a\n")
	case 5: // succeeds or not
		return applyCall([]byte(name+"\nq\no\n\nz"), text)
	case 6:
		src := make([]byte, 0, 12)
		src = append(append(append(src, name...), '\n'), c[0], '\n', 'o', '\n', c[1])
		return applyCall(src, text)
	case 7:
		src := []byte(name + "abcdefgh")
		return applyCall(src, &gitdiff.File{IsBinary: true, BinaryFragment: deltaFrag([]byte{byte(len(src)), 7, 3, c[0], c[1], name[0], 0x91, 2, 4})})
	case 8:
		src := []byte(name + "abcdefgh")
		return applyCall(src, &gitdiff.File{IsBinary: true, BinaryFragment: deltaFrag([]byte{byte(len(src)), 6, 0x91, c[0] & 15, 4, 2, c[1], name[0]})})
	case 9:
		data := append([]byte(name), at(0)...)
		return applyCall([]byte("old"), &gitdiff.File{IsBinary: true, BinaryFragment: literalFrag(append(data, at(1)...))})
	case 10:
		f := *text
		f.OldName, f.NewName, f.IsRename, f.Score = "a"+c[:1]+name, "b"+c[1:], true, 50
		return textOf(f.String)
	case 11:
		data := append([]byte(name), at(0)...)
		frag := &gitdiff.BinaryFragment{Size: 9, RawData: append(data, at(1)...)}
		return textOf((&gitdiff.File{OldName: name, NewName: name, IsBinary: true, BinaryFragment: frag, ReverseBinaryFragment: frag}).String)
	case 12:
		return headerCall("From 61f5cd9" + digit(c[0], 10) + "\nFrom: " + name + " <a@b>\nDate: Thu, 7 Apr 2005 22:13:1" + digit(c[0], 10) + " +0200\nSubject: [PATCH] =?UTF-8?q?" + name + "=4" + digit(c[1], 10) + "?=\n\nbody " + name + "\n---\nmore " + name)
	case 13:
		return headerCall("commit 61f5cd90\nAuthor:     " + name + " <a@b>\nAuthorDate: 2005-04-07 22:13:1" + digit(c[0], 10) + " +0200\nCommit:     C <c@" + name + ">\nCommitDate: 111291199" + digit(c[1], 10) + "\n\n    title " + name + "\n\n    body " + c[:1] + "\n")
	case 14:
		return dateCall("2005-04-07 22:13:1" + digit(c[0], 10) + " -070" + digit(c[1], 10))
	case 15:
		s := name + " " + c + " <" + name + "@" + c[1:] + ">"
		return func(*hook) *outcome {
			id, err := gitdiff.ParsePatchIdentity(s)
			return (&outcome{Text: id.Name + "\x00" + id.Email}).fail(err)
		}
	case 16:
		frag := literalFrag([]byte(name + c))
		return func(h *hook) *outcome {
			h.call()
			b, err := io.ReadAll(frag.Data())
			return (&outcome{Out: b}).fail(err)
		}
	case 17: // nothing to apply
		src := []byte(name + c + "\n" + repeat(name, 9))
		return applyCall(src, &gitdiff.File{OldName: name, NewName: name})
	case 18:
		src := []byte(c + "abc" + name)
		return func(h *hook) *outcome {
			dst := &hookSink{h: h}
			a := gitdiff.NewBinaryApplier(dst, &hookAt{memAt{src}, h})
			err := a.Close()
			return (&outcome{Out: dst.b}).fail(err)
		}
	case 19:
		return dateCall("111291199" + digit(c[0], 10) + " -01" + digit(c[0], 6) + digit(c[1], 10))
	case 20:
		return dateCall("Thu Apr 7 22:13:1" + digit(c[0], 10) + " 2005 +0" + digit(c[1], 6) + "30")
	case 21:
		return parseCall("diff --git a/x b/x\nold mode 10" + digit(c[0], 8) + "644\nnew mode 100755\nsimilarity index " + digit(c[1], 10) + "0%\nrename from x\nrename to " + name + "\nindex 1" + digit(c[0], 10) + "..2" + digit(c[1], 10) + "\n")
	case 23: // the reader fails
		text := "pre\ndiff --git a/x b/x\nold mode 10064" + digit(c[0], 8) + "\nnew mode 100755\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-" + c
		return func(*hook) *outcome {
			files, pre, err := gitdiff.Parse(io.MultiReader(&hookReader{text, nil}, brokenReader{}))
			return (&outcome{Files: files, Text: pre}).fail(err)
		}
	case 24: // the source fails
		return func(*hook) *outcome {
			var dst sink
			err := gitdiff.Apply(&dst, &brokenAt{memAt{[]byte(name + "\n" + c + "\no\nz")}, 3}, text)
			return (&outcome{Out: dst.b}).fail(err)
		}
	case 25: // the destination fails
		src := append(append([]byte(name+"\n"), c[0]), "\no\nz"...)
		return func(*hook) *outcome {
			dst := &brokenSink{n: int(c[1] & 3)}
			err := gitdiff.Apply(dst, &memAt{src}, text)
			return (&outcome{Out: dst.b}).fail(err)
		}
	case 26: // a corrupt stream
		f := literalFrag([]byte(name + c))
		f.Size--
		return applyCall(nil, &gitdiff.File{IsBinary: true, BinaryFragment: f})
	case 27: // fragments overlap, do not match or are invalid
		n := 1 + len(name)&1
		f := textFile()
		for i := 0; i <= n; i++ {
			f.TextFragments = append(f.TextFragments, fill(&gitdiff.TextFragment{OldPosition: int64(min(i, n-1) + 1), NewPosition: int64(i + 1), Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "o\n"}}}))
		}
		switch c[0] & 3 {
		case 1:
			f.TextFragments[n].LinesAdded++
		case 2:
			f.TextFragments[n].OldPosition = 9
		case 3:
			f.TextFragments[n] = nil
		}
		return applyCall([]byte("o\no\n"), f)
	case 28: // appliers in the wrong state, and a size that is not allowed
		src := []byte(name)
		return func(h *hook) *outcome {
			b := gitdiff.NewBinaryApplier(&sink{}, &hookAt{memAt{src}, h}, gitdiff.WithMaxBinaryFragmentBytes(int64(c[1]&3)))
			a := gitdiff.NewTextApplier(&sink{}, &hookAt{memAt{src}, h})
			var err error
			switch c[0] & 7 {
			case 0:
				err = a.ApplyFragment(nil)
			case 1, 2:
				a.Close()
				err = a.ApplyFragment(fill(&gitdiff.TextFragment{}))
			case 3, 4:
				b.Close()
				err = b.ApplyFragment(literalFrag(nil))
			case 5:
				err = b.ApplyFragment(nil)
			case 6:
				b.ApplyFragment(literalFrag(nil))
				err = b.ApplyFragment(literalFrag(nil))
			default:
				err = b.ApplyFragment(literalFrag(src))
			}
			return (&outcome{}).fail(err)
		}
	case 29: // options
		text := "From: a <a@b>\nSubject: Re: [PATCH] [" + c[1:] + "] x\n\nbody\n"
		mode := gitdiff.SubjectCleanMode(c[0] & 3 % 3)
		return func(*hook) *outcome {
			hdr, err := gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(mode))
			return (&outcome{Hdr: hdr}).fail(err)
		}
	case 30:
		limit := int64(c[0]&7) - 1
		frag := literalFrag([]byte("abc" + c[1:]))
		return func(h *hook) *outcome {
			dst := &hookSink{h: h}
			err := gitdiff.Apply(dst, &hookAt{memAt{nil}, h}, &gitdiff.File{IsBinary: true, BinaryFragment: frag}, gitdiff.WithMaxBinaryFragmentBytes(limit))
			return (&outcome{Out: dst.b}).fail(err)
		}
	default:
		src := []byte("1\n2\n3\n" + c + "\n5\n")
		one := fill(&gitdiff.TextFragment{OldPosition: 2, NewPosition: 2, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "2\n"}, {Op: gitdiff.OpAdd, Line: name}}})
		two := fill(&gitdiff.TextFragment{OldPosition: 4, NewPosition: 4, Lines: []gitdiff.Line{{Op: gitdiff.OpContext, Line: "xx\n"}, {Op: gitdiff.OpAdd, Line: name + "\n"}}})
		return func(h *hook) *outcome {
			dst := &hookSink{h: h}
			a := gitdiff.NewTextApplier(dst, &hookAt{memAt{src}, h})
			err := a.ApplyFragment(one)
			h.call()
			if err == nil {
				err = a.ApplyFragment(two)
			}
			h.call()
			if e := a.Close(); err == nil {
				err = e
			}
			return (&outcome{Out: dst.b}).fail(err)
		}
	}
}

// digit is a digit below base that depends on c.
func digit(c byte, base byte) string { return string([]byte{'0' + c%base}) }

// rightBytes are arbitrary in thorough.
func rightBytes() string {
	if sym.Thorough() {
		return sym.String("right", 2)
	}
	return "\n9"
}

// C24_history every pair of 31 calls (parsing, applying, formatting, headers,
// dates, identities, some of them with failing readers, sources or destinations; two arbitrary bytes in the first, in thorough in both): repeating the first after the
// second gives the same, and nothing changes what it returned before, nor does
// a change of what it returned have an effect.
func C24_history() {
	a := call(sym.Choose("a", nCalls), "left", sym.String("left", 2))
	b := call(sym.Choose("b", nCalls), "right!", rightBytes())
	first := a(nil)
	kept := first.copy()
	other := b(nil)
	keptOther := other.copy()
	assertOutcome(first, kept, "another call")
	assertOutcome(a(nil), kept, "a call before")
	assertOutcome(other, keptOther, "a later call")
	first.scribble()
	assertOutcome(other, keptOther, "a change of another result")
	other.scribble()
	assertOutcome(a(nil), kept, "a change of an earlier result")
	assertOutcome(b(nil), keptOther, "a change of an earlier result")
}

// fresh is what a call returns when nothing was called before.
func fresh(f func(*hook) *outcome) *outcome {
	var r outcome
	sym.Fresh(func() { r = *f(nil).copy() }, &r)
	return &r
}

// C24_fresh every pair of 31 calls (two arbitrary bytes in the first, in
// thorough in both), the first repeated after the second: each returns what it
// returns in a process that calls nothing else.
func C24_fresh() {
	a := call(sym.Choose("a", nCalls), "left", sym.String("left", 2))
	b := call(sym.Choose("b", nCalls), "right!", rightBytes())
	wantA, wantB := fresh(a), fresh(b)
	sym.Reach("fresh")
	assertOutcome(a(nil), wantA, "the first use")
	assertOutcome(b(nil), wantB, "an earlier call")
	assertOutcome(a(nil), wantA, "an earlier call")
}

// C24_reentrant pairs of the 31 calls (8 or all for each): the second made from
// inside the first, at any one of the first 8 (40) uses of its reader, source or destination.
func C24_reentrant() {
	k := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 22}[sym.Choose("a", 14)]
	a := call(k, "left", sym.String("left", 2))
	b := call((k+sym.Choose("b", pick(8, nCalls)))%nCalls, "right!", rightBytes())
	want, wantOther := a(nil).copy(), b(nil).copy()
	var other *outcome
	h := &hook{f: func() { other = b(nil) }, at: 1 + sym.Choose("at", pick(8, 40))}
	got := a(h)
	if other == nil {
		return // it does not use them that often
	}
	sym.Reach("nested")
	assertOutcome(got, want, "a call in between")
	assertOutcome(other, wantOther, "being inside another call")
}

// C24_concurrent every one of the 31 calls at the same time as the same or the
// next kind of call on other values: no state of the package is written by
// them (a candidate is confirmed by running both under the race detector).
func C24_concurrent() {
	k := sym.Choose("a", nCalls)
	a := call(k, "left", sym.String("left", 2))
	b := call((k+sym.Choose("b", pick(2, nCalls)))%nCalls, "right!", rightBytes())
	var x, y *outcome
	sym.Concurrently(func() { x = a(nil) }, func() { y = b(nil) })
	assertOutcome(a(nil), x, "a concurrent call")
	assertOutcome(b(nil), y, "a concurrent call")
}

// C24_relisted a File of two or three fragments is applied, formatted or both, its
// fragments are listed in another order, or one is replaced, in the same list
// or in a new one, and it is applied and formatted again (two arbitrary bytes):
// the same as for an equal new File.
func C24_relisted() {
	c := sym.String("c", 2)
	sym.Assume(c[0] != '\n' && c[1] != '\n')
	n := 2 + sym.Choose("n", 2)
	src := []byte("1\n" + c[:1] + "\n3\n4\n5\n" + c[1:] + "\n7\n8\n9\n")
	lines := splitLines(src)
	frag := func(pos int, add string) *gitdiff.TextFragment {
		return fill(&gitdiff.TextFragment{OldPosition: int64(pos), NewPosition: int64(pos), Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: string(lines[pos-1])}, {Op: gitdiff.OpAdd, Line: add + "\n"}}})
	}
	frags := []*gitdiff.TextFragment{frag(2, "x"), frag(6, "y"), frag(8, "z")}[:n]
	f := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: append([]*gitdiff.TextFragment(nil), frags...)}
	if sym.Choose("reversed", 2) == 1 {
		for i := range frags {
			f.TextFragments[i] = frags[n-1-i]
		}
	}
	use := func(f *gitdiff.File) *outcome {
		var dst sink
		err := gitdiff.Apply(&dst, &memAt{src}, f)
		return (&outcome{Out: dst.b, Text: f.String()}).fail(err)
	}
	use(f)
	list := append([]*gitdiff.TextFragment(nil), f.TextFragments...)
	switch sym.Choose("change", 5) {
	case 0: // two swapped
		i := sym.Choose("i", n-1)
		list[i], list[n-1] = list[n-1], list[i]
	case 1: // one replaced
		list[sym.Choose("i", n)] = frag([]int{1, 4, 7, 9}[sym.Choose("pos", 4)], c)
	case 2: // one missing
		list[sym.Choose("i", n)] = nil
	case 3: // one removed
		list = list[1:]
	case 4: // one more
		list = append(list, frag([]int{1, 4, 7, 9}[sym.Choose("pos", 4)], c))
	}
	nils := false
	for _, t := range list {
		nils = nils || t == nil
	}
	if sym.Choose("in place", 2) == 1 {
		f.TextFragments = append(f.TextFragments[:0], list...)
	} else {
		f.TextFragments = list
	}
	same := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: append([]*gitdiff.TextFragment(nil), list...)}
	if nils {
		var x, y sink
		a, b := gitdiff.Apply(&x, &memAt{src}, f), gitdiff.Apply(&y, &memAt{src}, same)
		sym.Assert(a != nil && b != nil && a.Error() == b.Error(), "a missing fragment is not found")
		return
	}
	assertOutcome(use(f), use(same), "a former list of fragments")
}

// C24_mutated nine calls on values that are changed in place between two of
// them (two arbitrary bytes before and after; fields, lines, data and source
// replaced): the second gives what it gives for an equal new value.
func C24_mutated() {
	a, b := sym.String("a", 2), sym.String("b", 2)
	k := sym.Choose("call", 9)
	src := []byte("1\n" + a + "\n3\n")
	src2 := []byte("2\n" + b + "\n3\n")
	frag := func(c string, pos int64) *gitdiff.TextFragment {
		return fill(&gitdiff.TextFragment{OldPosition: pos, NewPosition: pos, Comment: c, Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: c + "\n"}, {Op: gitdiff.OpAdd, Line: c[1:] + c[:1]}}})
	}
	text := func(c string, pos int64) *gitdiff.File {
		return &gitdiff.File{OldName: c, NewName: c, OldMode: os.FileMode(0o100640 + pos), TextFragments: []*gitdiff.TextFragment{frag(c, pos)}}
	}
	binary := func(f *gitdiff.BinaryFragment) *gitdiff.File {
		return &gitdiff.File{OldName: "x", NewName: "x", IsBinary: true, BinaryFragment: f}
	}
	// the value before, the value after, and the call
	var v, w *gitdiff.File
	switch {
	case k < 5:
		v, w = text(a, 2), text(b, 2)
		if sym.Choose("pos", 2) == 1 {
			w = text(b, 3)
			w.TextFragments[0].Lines[1].Op = gitdiff.OpContext // not valid
		}
	case k < 8:
		v, w = binary(literalFrag([]byte("x"+a))), binary(literalFrag([]byte("x"+b)))
		if sym.Choose("bad", 2) == 1 {
			w.BinaryFragment.Size++
		}
	default:
		v, w = binary(deltaFrag([]byte{7, 2, 0x90, 2})), binary(deltaFrag([]byte{7, 2, 2, b[0], b[1]}))
		switch sym.Choose("copy", 3) {
		case 1:
			w = binary(deltaFrag([]byte{7, 2, 0x90, 2}))
		case 2: // of the same size
			w = binary(deltaFrag([]byte{7, 1, 1, b[0]}))
		}
	}
	do := func(f *gitdiff.File, src io.ReaderAt) *outcome {
		var dst sink
		switch k {
		case 0:
			return &outcome{Text: f.TextFragments[0].Header()}
		case 1:
			return &outcome{Text: f.TextFragments[0].String()}
		case 2:
			return (&outcome{}).fail(f.TextFragments[0].Validate())
		case 3, 5:
			return &outcome{Text: f.String()}
		case 6:
			return &outcome{Text: f.BinaryFragment.String()}
		case 7:
			b, err := io.ReadAll(f.BinaryFragment.Data())
			return (&outcome{Out: b}).fail(err)
		}
		err := gitdiff.Apply(&dst, src, f)
		return (&outcome{Out: dst.b}).fail(err)
	}
	at := &memAt{src}
	do(v, at)
	// change everything in place
	copy(src, src2)
	if k < 5 {
		t, u := v.TextFragments[0], w.TextFragments[0]
		copy(t.Lines, u.Lines)
		lines := t.Lines
		*t = *u
		t.Lines = lines
		v.OldName, v.NewName, v.OldMode = w.OldName, w.NewName, w.OldMode
	} else {
		t, u := v.BinaryFragment, w.BinaryFragment
		t.RawData = append(t.RawData[:0], u.RawData...)
		t.Size = u.Size
	}
	assertOutcome(do(v, at), do(w, &memAt{src2}), "a former value")
}
