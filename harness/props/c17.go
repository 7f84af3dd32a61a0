package props

import (
	"bytes"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// lifeFrag is a fragment at a chosen position that replaces or inserts a line.
func lifeFrag(i int, kind int, fixed bool) *gitdiff.TextFragment {
	p := int64(1)
	if !fixed {
		p = int64(sym.Choose("pos"+itoa(i), 5))
	}
	switch kind {
	case 0: // replace a line
		return fill(&gitdiff.TextFragment{OldPosition: p, NewPosition: 1, Lines: []gitdiff.Line{
			{Op: gitdiff.OpDelete, Line: sym.String("old"+itoa(i), 1) + "\n"}, {Op: gitdiff.OpAdd, Line: itoa(i) + "\n"}}})
	default: // insert a line
		return fill(&gitdiff.TextFragment{OldPosition: p, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: itoa(i) + "\n"}}})
	}
}

// C17_text every sequence of four (five) calls of a text applier: Close, or
// ApplyFragment with a nil, an inconsistent, a replacing or an inserting
// fragment at position 0..4, over a source of three lines of one arbitrary
// byte; then Close twice and a fragment.
func C17_text() {
	c := sym.Bytes("c", 3)
	for i := range c {
		sym.Assume(c[i] != '\n')
	}
	src := []byte{c[0], '\n', c[1], '\n', c[2]}
	lines := splitLines(src)
	var dst sink
	a := gitdiff.NewTextApplier(&dst, &memAt{src})

	var want []byte
	next := int64(0)
	closed, broken, lost := false, false, false
	n := pick(4, 5)
	for i := 0; i < n+4; i++ {
		var call int
		if i < n {
			call = sym.Choose("call"+itoa(i), 5)
		} else {
			call = []int{0, 0, 3, 0}[i-n]
		}
		had := len(dst.b)
		if call == 0 {
			err := a.Close()
			sym.Assert(err == nil, "Close fails")
			if closed {
				sym.Assert(len(dst.b) == had, "data is written by a second Close")
			} else {
				for ; next < int64(len(lines)); next++ {
					want = append(want, lines[next]...)
				}
				if !lost {
					sym.Assert(sym.EqBytes(dst.b, want), "wrong output after Close")
				}
			}
			closed = true
			continue
		}
		var f *gitdiff.TextFragment
		switch call {
		case 2:
			f = &gitdiff.TextFragment{OldPosition: 1, OldLines: 1, NewLines: 1, LinesAdded: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "x"}}}
		case 3, 4:
			f = lifeFrag(i, call-3, closed || broken)
		}
		err := a.ApplyFragment(f)
		switch {
		case closed:
			sym.Assert(err != nil, "a closed applier accepts a fragment")
			sym.Assert(len(dst.b) == had, "data is written after Close")
			continue
		case call <= 2:
			sym.Assert(err != nil, "an invalid fragment is accepted")
			sym.Assert(len(dst.b) == had, "data is written for an invalid fragment")
			continue
		case broken:
			lost = true
			continue
		}
		start := refStart(f)
		if start < next || f.OldPosition == 0 || start+f.OldLines > int64(len(lines)) {
			sym.Assert(err != nil, "a fragment that overlaps or does not fit is accepted")
			sym.Assert(isConflict(err) == (f.Validate() == nil), "a fragment that overlaps or does not fit is not a conflict")
			sym.Assert(len(dst.b) == had, "data is written for a fragment that overlaps or does not fit")
			continue
		}
		ok := true
		if f.OldLines == 1 {
			ok = string(lines[start]) == f.Lines[0].Line
		}
		if !ok {
			sym.Assert(err != nil && isConflict(err), "a mismatching fragment is accepted")
			broken, lost = true, true
			continue
		}
		sym.Assert(err == nil, "a valid fragment is rejected")
		for ; next < start; next++ {
			want = append(want, lines[next]...)
		}
		next += f.OldLines
		want = append(want, f.Lines[len(f.Lines)-1].Line...)
		sym.Assert(sym.EqBytes(dst.b, want), "wrong output after a fragment")
	}
}

// C17_binary every sequence of four (five) calls of a binary applier: Close, or
// ApplyFragment with a nil fragment, a literal, a delta, a literal of the
// wrong size, one of an unknown method or one above the size limit, over a
// source of three arbitrary bytes; then Close twice and a literal.
func C17_binary() {
	src := sym.Bytes("src", 3)
	data := sym.Bytes("data", 2)
	var dst sink
	a := gitdiff.NewBinaryApplier(&dst, &memAt{src}, gitdiff.WithMaxBinaryFragmentBytes(6))
	closed, dirty := false, false
	n := pick(4, 5)
	for i := 0; i < n+4; i++ {
		call := 0
		if i < n {
			call = sym.Choose("call"+itoa(i), 7)
		} else {
			call = []int{0, 0, 2, 0}[i-n]
		}
		had := len(dst.b)
		if call == 0 {
			sym.Assert(a.Close() == nil, "Close fails")
			switch {
			case closed:
				sym.Assert(len(dst.b) == had, "data is written by a second Close")
			case dirty:
				sym.Assert(len(dst.b) == had, "data is written by Close after a fragment")
			default:
				sym.Assert(sym.EqBytes(dst.b, src), "the source is not copied when nothing was applied")
			}
			closed = true
			continue
		}
		var f *gitdiff.BinaryFragment
		var want []byte
		switch call {
		case 2:
			f, want = literalFrag(data), data
		case 3:
			f, want = deltaFrag([]byte{3, 3, 0x90, 2, 1, data[0]}), []byte{src[0], src[1], data[0]}
		case 4:
			f = literalFrag(data)
			f.Size = int64([]int{0, 1, 3}[sym.Choose("size"+itoa(i), 3)])
		case 5:
			f = literalFrag(data)
			f.Method = 2
		case 6:
			f = literalFrag([]byte("1234567"))
		}
		err := a.ApplyFragment(f)
		switch {
		case closed || dirty || f == nil:
			sym.Assert(err != nil, "a fragment is accepted after Close, after another one, or is nil")
			sym.Assert(len(dst.b) == had, "data is written for a rejected fragment")
		case call >= 4:
			sym.Assert(err != nil, "an invalid fragment is accepted")
			dirty = true
		default:
			sym.Assert(err == nil, "a valid fragment is rejected")
			sym.Assert(sym.EqBytes(dst.b, want), "wrong output of a binary fragment")
			dirty = true
		}
	}
}

// C17_failed_close Close whose k-th write or source read fails, text or
// binary applier with or without an applied fragment: closing again does
// nothing and returns nil, and fragments are rejected.
func C17_failed_close() {
	c := sym.Bytes("c", 2)
	sym.Assume(sym.And(c[0] != '\n', c[1] != '\n'))
	src := []byte{c[0], '\n', c[1], '\n', 'z'}
	dst := &faultSink{k: sym.Choose("k", 4), part: sym.Choose("part", 2), err: errFault}
	in := &faultAt{memAt: memAt{src}, k: 1 << 30, err: errFault}
	if sym.Choose("source", 2) == 1 {
		in.k, dst.k = dst.k, 1<<30
	}
	var cerr error
	var again func() error
	var apply func() error
	frag := fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "n\n"}}})
	if sym.Choose("binary", 2) == 1 {
		a := gitdiff.NewBinaryApplier(dst, in)
		cerr = a.Close()
		again = a.Close
		apply = func() error { return a.ApplyFragment(literalFrag(c)) }
	} else {
		a := gitdiff.NewTextApplier(dst, in)
		if sym.Choose("applied", 2) == 1 {
			_ = a.ApplyFragment(frag)
		}
		cerr = a.Close()
		again = a.Close
		apply = func() error { return a.ApplyFragment(frag) }
	}
	if cerr != nil {
		sym.Reach("failed")
	}
	had := len(dst.b)
	ops := in.ops
	sym.Assert(again() == nil, "closing again fails")
	sym.Assert(apply() != nil, "a closed applier accepts a fragment")
	sym.Assert(again() == nil, "closing again fails")
	sym.Assert(len(dst.b) == had, "data is written after a failed Close")
	sym.Assert(in.ops == ops, "the source is read after a failed Close")
}

// C17_nothing applying a file without fragments, of any flags, and closing
// unused appliers copies a source of 0..5 arbitrary bytes or 32767..32769
// bytes with an arbitrary last one.
func C17_nothing() {
	var src []byte
	if n := sym.Choose("len", 9); n < 6 {
		src = sym.Bytes("src", n)
	} else {
		src = []byte(numbered("ab", 12000)[:32767+n-6])
		src[len(src)-1] = sym.Byte("last")
	}
	var dst bytes.Buffer
	var err error
	switch sym.Choose("api", 3) {
	case 0:
		f := &gitdiff.File{OldName: "f", NewName: "f", OldMode: 0o100644, NewMode: 0o100755}
		f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = sym.Bool("new"), sym.Bool("delete"), sym.Bool("copy"), sym.Bool("rename")
		err = gitdiff.Apply(&dst, &memAt{src}, f)
	case 1:
		err = gitdiff.NewTextApplier(&dst, &memAt{src}).Close()
	case 2:
		err = gitdiff.NewBinaryApplier(&dst, &memAt{src}).Close()
	}
	sym.Assert(err == nil, "copying the source fails")
	sym.Assert(sym.EqBytes(dst.Bytes(), src), "the source is not copied unchanged")
}
