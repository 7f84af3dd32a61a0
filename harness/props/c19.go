package props

import (
	"errors"
	"io"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// applyErr asserts that err is an *ApplyError that hides io.EOF.
func applyErr(err error) *gitdiff.ApplyError {
	var e *gitdiff.ApplyError
	sym.Assert(errors.As(err, &e) && error(e) == err, "an error is not an *ApplyError")
	sym.Assert(!errors.Is(err, io.EOF), "io.EOF is exposed as the cause")
	if e == nil {
		return &gitdiff.ApplyError{}
	}
	return e
}

// C19_mismatch two or three fragments of one to three lines, one replacing
// context, delete or add lines, in any order in the file, over a source of
// eight lines of which each may differ in one arbitrary byte.
func C19_mismatch() {
	d := sym.Bytes("d", 8)
	var src []byte
	for _, c := range d {
		sym.Assume(c != '\n')
		src = append(src, c, '\n')
	}
	lines := splitLines(src)
	line := func(i int) string { return string([]byte{'a' + byte(i), '\n'}) }
	old := func(i int, op gitdiff.LineOp) gitdiff.Line { return gitdiff.Line{Op: op, Line: line(i)} }
	add := gitdiff.Line{Op: gitdiff.OpAdd, Line: "n\n"}
	all := []*gitdiff.TextFragment{
		fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{old(0, gitdiff.OpContext), add, old(1, gitdiff.OpDelete)}}),
		fill(&gitdiff.TextFragment{OldPosition: 4, NewPosition: 4, Lines: []gitdiff.Line{add, add, old(3, gitdiff.OpDelete), old(4, gitdiff.OpContext)}}),
		fill(&gitdiff.TextFragment{OldPosition: 7, NewPosition: 9, Lines: []gitdiff.Line{old(6, gitdiff.OpContext), old(7, gitdiff.OpContext), add}}),
	}
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {1}, {2, 0}}[sym.Choose("order", 8)]
	var frags []*gitdiff.TextFragment
	for _, i := range order {
		frags = append(frags, all[i])
	}
	f := textFile(frags...)
	var dst sink
	direct := sym.Choose("api", 2) == 1
	var err error
	if direct {
		a := gitdiff.NewTextApplier(&dst, &memAt{src})
		for _, frag := range all {
			if err == nil {
				err = a.ApplyFragment(frag)
			}
		}
		if err == nil {
			err = a.Close()
		}
		order = []int{0, 1, 2}
	} else {
		err = gitdiff.Apply(&dst, &memAt{src}, f)
	}
	// the first mismatch in the order of the source
	for k := 0; k < 3; k++ {
		at := -1
		for i, o := range order {
			if o == k {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		srcLine := all[k].OldPosition
		for i, l := range all[k].Lines {
			if l.Op == gitdiff.OpAdd {
				continue
			}
			if string(lines[srcLine-1]) != l.Line {
				sym.Reach("mismatch")
				e := applyErr(err)
				sym.Assert(isConflict(err), "a mismatch is not a conflict")
				sym.Assert(e.Line == srcLine, "wrong source line in the error")
				sym.Assert(e.FragmentLine == i+1, "wrong fragment line in the error")
				if !direct {
					sym.Assert(e.Fragment == at+1, "wrong fragment in the error")
				}
				return
			}
			srcLine++
		}
	}
	sym.Assert(err == nil, "a matching patch does not apply")
}

// C19_text one or two fragments with one line of 1..2 (0..2) arbitrary bytes each at
// positions 0..3, one of which may have wrong counts or be nil, over a source
// of 0..3 arbitrary bytes: conflicts are told from invalid patches.
func C19_text() {
	src := sym.Bytes("src", sym.Choose("srclen", 4))
	var frags []*gitdiff.TextFragment
	n := 1 + sym.Choose("frags", 2)
	bad := sym.Choose("bad", 5) // 0: none, 1, 2: first, 3, 4: second
	for i := 0; i < n; i++ {
		f := fill(&gitdiff.TextFragment{NewPosition: 1, Lines: []gitdiff.Line{symLine("l"+itoa(i), pick(1, 0), 2)}})
		f.OldPosition = int64(sym.Choose("pos"+itoa(i), 4))
		switch bad - 2*i {
		case 1:
			f.OldLines++
		case 2:
			f = nil
		}
		frags = append(frags, f)
	}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, textFile(frags...))
	if err == nil {
		sym.Assert(bad == 0 || bad > 2*n, "an invalid fragment is applied")
		return
	}
	e := applyErr(err)
	sym.Assert(e.Fragment >= 0 && e.Fragment <= n, "wrong fragment in the error")
	invalid := bad > 0 && bad <= 2*n
	if !invalid {
		for _, f := range frags {
			if f.Validate() != nil {
				invalid = true
			}
		}
	}
	if n == 1 {
		sym.Assert(isConflict(err) == !invalid, "a conflict is not told from an invalid patch")
	} else if !invalid {
		sym.Assert(isConflict(err), "a mismatch is not a conflict")
	} else if isConflict(err) {
		// only if the other fragment does not match
		other := frags[0]
		if bad == 1 || bad == 2 || (bad == 0 && other.Validate() != nil) {
			other = frags[1]
		}
		sym.Assert(other != nil && other.Validate() == nil, "an invalid patch is reported as a conflict")
		if other != nil {
			_, ok := refApply(src, []*gitdiff.TextFragment{other})
			start := int64(-1)
			if bad == 0 || bad&1 == 1 {
				// wrong counts may also put both at overlapping lines
				start = refStart(other)
			}
			sym.Assert(sym.Or(!ok, start >= 0), "an invalid patch is reported as a conflict")
		}
	}
	var empty gitdiff.Conflict
	if isConflict(err) {
		sym.Assert(errors.Is(err, &empty) && len(err.Error()) > 0, "a conflict has no text")
	}
}

// C19_short a source of 0..5 lines that ends before or inside a fragment of
// three context lines and an added one at position 1..6: the error names the
// line that is missing.
func C19_short() {
	n := sym.Choose("lines", 6)
	src := []byte(repeat("x\n", n))
	if n > 0 {
		src[2*n-2] = sym.Byte("last")
		sym.Assume(src[2*n-2] != '\n')
		src = src[:len(src)-sym.Choose("cut", 2)]
	}
	p := 1 + sym.Choose("pos", 6)
	l := gitdiff.Line{Op: gitdiff.OpContext, Line: "x\n"}
	f := fill(&gitdiff.TextFragment{OldPosition: int64(p), NewPosition: int64(p), Lines: []gitdiff.Line{l, l, {Op: gitdiff.OpAdd, Line: "y\n"}, l}})
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, textFile(f))
	if n < p+2 {
		e := applyErr(err)
		sym.Assert(isConflict(err), "a source that is too short is not a conflict")
		sym.Assert(e.Line == int64(n)+1, "wrong source line in the error")
		sym.Assert(e.Fragment == 1, "wrong fragment in the error")
		sym.Assert(len(dst.b) == 0, "data is written for a source that is too short")
	}
}

// C19_binary a delta of one insert and one copy with arbitrary size fields and
// operands of one byte, or cut short; a literal with a wrong size or damaged
// stream, files of contradicting kinds, on a source of 0..2 arbitrary bytes.
func C19_binary() {
	src := sym.Bytes("src", sym.Choose("srclen", 3))
	f := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true}
	conflict, always := false, false
	switch sym.Choose("kind", 5) {
	case 0:
		size := sym.Byte("srcsize")
		d := []byte{size, sym.Byte("dstsize"), 1, sym.Byte("b"), 0x91, sym.Byte("off"), byte(sym.Int("n", 1, 4))}
		sym.Assume(sym.And(size < 0x80, d[1] < 0x80))
		cut := sym.Choose("cut", 6)
		f.BinaryFragment = deltaFrag(d[:len(d)-cut])
		conflict = int(size) != len(src)
		always = conflict && cut == 0
		if cut >= 5 {
			conflict = sym.And(conflict, true)
		}
	case 1:
		f.BinaryFragment = literalFrag(src)
		f.BinaryFragment.Size = int64(sym.Int("size", -2, 9))
	case 2:
		f.BinaryFragment = literalFrag([]byte("abc"))
		raw := f.BinaryFragment.RawData
		switch i := sym.Choose("damage", 5); i {
		case 0, 1:
			raw[i] = sym.Byte("raw")
		default:
			f.BinaryFragment.RawData = raw[:len(raw)-i]
		}
	case 3:
		f.BinaryFragment = nil
	case 4:
		f.IsBinary = sym.Choose("binary", 2) == 1
		f.BinaryFragment = literalFrag(src)
		f.TextFragments = []*gitdiff.TextFragment{{}}
	}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, f)
	if err == nil {
		sym.Assert(!always, "a delta for another source is applied")
		return
	}
	applyErr(err)
	if always {
		sym.Assert(isConflict(err), "a delta for another source is not a conflict")
	}
	if !conflict {
		sym.Assert(!isConflict(err), "an invalid patch is reported as a conflict")
	}
}

// C19_is Conflict.Is: an empty Conflict matches every conflict, any other
// error does not; ApplyError unwraps to its cause and prints it.
func C19_is() {
	src := sym.Bytes("src", 2)
	f := fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "x\n"}, {Op: gitdiff.OpAdd, Line: "y\n"}}})
	var dst sink
	err := gitdiff.NewTextApplier(&dst, &memAt{src}).ApplyFragment(f)
	if err == nil {
		return
	}
	e := applyErr(err)
	cause := e.Unwrap()
	var c *gitdiff.Conflict
	sym.Assert(errors.As(err, &c), "a mismatch is not a conflict")
	sym.Assert(cause == error(c) && e.Error() == c.Error(), "an ApplyError hides its cause")
	sym.Assert(errors.Is(err, c) && errors.Is(err, &gitdiff.Conflict{}), "a conflict does not match itself")
	sym.Assert(!errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, errFault), "a conflict matches another error")
	sym.Assert(!errors.Is(errFault, c), "another error matches a conflict")
	other := gitdiff.NewTextApplier(&dst, &memAt{nil}).ApplyFragment(f)
	var oc *gitdiff.Conflict
	if errors.As(other, &oc) {
		sym.Assert(errors.Is(other, oc), "a conflict does not match itself")
		sym.Assert(errors.Is(err, oc) == (oc.Error() == c.Error()), "a conflict matches a different one")
	}
	// the same mismatch again, elsewhere
	again := gitdiff.NewTextApplier(&dst, &memAt{append([]byte(nil), src...)}).ApplyFragment(f)
	var ac *gitdiff.Conflict
	sym.Assert(errors.As(again, &ac) && ac.Error() == c.Error(), "the same mismatch gives another conflict")
	sym.Assert(errors.Is(err, ac) && errors.Is(again, c), "a conflict does not match an equal one")
}

// offSink fails in the write with the byte at a chosen offset of the output.
type offSink struct {
	n, at  int
	err    error
	lo, hi int // of the write that failed
}

func (s *offSink) Write(p []byte) (int, error) {
	if s.at < s.n+len(p) {
		if s.hi == 0 {
			s.lo, s.hi = s.n, s.n+len(p)
		}
		if s.err != nil {
			return 0, s.err
		}
		return s.at - s.n, nil
	}
	s.n += len(p)
	return len(p), nil
}

// C19_write one to three fragments after each other or with gaps, over eight
// lines with one arbitrary byte each, and a destination that fails or takes too
// little at any byte of the output: a line, fragment or fragment line named by
// the error is one of those that the failed write was for, and known while a
// fragment is applied.
func C19_write() {
	c := sym.Bytes("c", 8)
	var src []byte
	for _, b := range c {
		sym.Assume(b != '\n')
		src = append(src, b, '\n')
	}
	lines := splitLines(src)
	old := func(i int, op gitdiff.LineOp) gitdiff.Line { return gitdiff.Line{Op: op, Line: string(lines[i-1])} }
	add := gitdiff.Line{Op: gitdiff.OpAdd, Line: "n\n"}
	p := []int64{int64(1 + sym.Choose("p0", 2)), int64(3 + sym.Choose("p1", 3)), int64(7 + sym.Choose("p2", 2))}
	all := []*gitdiff.TextFragment{
		fill(&gitdiff.TextFragment{OldPosition: p[0], NewPosition: p[0], Lines: []gitdiff.Line{add, old(int(p[0]), gitdiff.OpContext)}}),
		fill(&gitdiff.TextFragment{OldPosition: p[1], NewPosition: p[1] + 1, Lines: []gitdiff.Line{old(int(p[1]), gitdiff.OpDelete), old(int(p[1]+1), gitdiff.OpContext), add}}),
		fill(&gitdiff.TextFragment{OldPosition: p[2], NewPosition: p[2] + 1, Lines: []gitdiff.Line{old(int(p[2]), gitdiff.OpContext), add, add}}),
	}
	frags := all[sym.Choose("from", 3):]
	type place struct {
		line           int64
		frag, fragLine int
		tail           bool
	}
	var at []place // of every byte of the output
	next := int64(1)
	put := func(s string, pl place) {
		for range s {
			at = append(at, pl)
		}
	}
	for i, f := range frags {
		for ; next < f.OldPosition; next++ {
			put("c\n", place{line: next, frag: i + 1})
		}
		for k, l := range f.Lines {
			if l.Op != gitdiff.OpDelete {
				put("c\n", place{line: next, frag: i + 1, fragLine: k + 1})
			}
			if l.Op != gitdiff.OpAdd {
				next++
			}
		}
	}
	for ; next <= 8; next++ {
		put("c\n", place{line: next, tail: true})
	}
	dst := &offSink{at: sym.Choose("at", 26)}
	sym.Assume(dst.at < len(at))
	if sym.Choose("short", 2) == 0 {
		dst.err = errFault
	}
	err := gitdiff.Apply(dst, &memAt{src}, textFile(frags...))
	e := applyErr(err)
	sym.Assert(!isConflict(err), "a failed write is a conflict")
	sym.Assert(dst.hi > dst.lo && dst.hi <= len(at), "more is written than the result")
	first, last := at[dst.lo], at[dst.hi-1]
	if !first.tail {
		sym.Reach("located")
		sym.Assert(e.Line > 0, "the error names no line")
		sym.Assert(e.Fragment > 0, "the error names no fragment")
	}
	if e.Line > 0 {
		sym.Assert(first.line <= e.Line && e.Line <= last.line, "the error names a line that is not the one written")
	}
	if e.Fragment > 0 {
		sym.Assert(first.tail || first.frag <= e.Fragment && (last.tail || e.Fragment <= last.frag), "the error names a fragment that is not the one written")
	}
	if e.FragmentLine > 0 && first.frag == last.frag && !first.tail {
		sym.Assert(e.FragmentLine <= last.fragLine && e.FragmentLine >= first.fragLine, "the error names a fragment line that is not the one written")
	}
}

// C19_leftover a '+0,0' fragment that deletes 1..3 numbered lines at any place of a
// source of 1..6, alone or after one that replaces the first line: the error names the
// first line that is left.
func C19_leftover() {
	n := 1 + sym.Choose("n", 6)
	src := []byte(numbered("a", n))
	src[len(src)-1] = sym.Byte("last")
	sym.Assume(src[len(src)-1] != '\n')
	m := 1 + sym.Choose("m", 3)
	p := 1 + sym.Choose("p", 5)
	if p+m > n {
		return
	}
	del := &gitdiff.TextFragment{OldPosition: int64(p), NewPosition: 0}
	for i := 0; i < m; i++ {
		del.Lines = append(del.Lines, gitdiff.Line{Op: gitdiff.OpDelete, Line: "a" + itoa(p-1+i) + "\n"})
	}
	frags := []*gitdiff.TextFragment{fill(del)}
	if p > 1 && sym.Choose("first", 2) == 1 {
		frags = append([]*gitdiff.TextFragment{fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a0\n"}, {Op: gitdiff.OpAdd, Line: "z\n"}}})}, frags...)
	}
	var dst sink
	e := applyErr(gitdiff.Apply(&dst, &memAt{src}, textFile(frags...)))
	sym.Assert(isConflict(e), "lines left after a full delete are no conflict")
	sym.Assert(e.Line == int64(p+m), "the line that is left is not named")
	sym.Assert(e.Fragment == len(frags), "wrong fragment in the error")
}
