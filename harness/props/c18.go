package props

import (
	"errors"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// C18_iff fragments of 0..3 (4) lines with any of the three operations or any
// other 64-bit operation, and any 64-bit value in each of the eight numbers;
// applied, in one call or to an applier, to a source that matches or not.
func C18_iff() {
	n := sym.Choose("lines", pick(4, 5))
	f := &gitdiff.TextFragment{}
	known := true
	for i := 0; i < n; i++ {
		k := sym.Choose("op"+itoa(i), 4)
		op := gitdiff.LineOp(k)
		if k == 3 {
			op = gitdiff.LineOp(sym.Int64("other" + itoa(i)))
			sym.Assume(sym.Or(op < 0, op > 2))
			known = false
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: op, Line: "l" + itoa(i) + "\n"})
	}
	// the counts of the lines, by position
	var old, new, added, deleted, leading, trailing int64
	changed := false
	for _, l := range f.Lines {
		if l.Op != gitdiff.OpAdd {
			old++
		}
		if l.Op != gitdiff.OpDelete {
			new++
		}
		if l.Op == gitdiff.OpAdd {
			added++
		}
		if l.Op == gitdiff.OpDelete {
			deleted++
		}
		if l.Op == gitdiff.OpContext && !changed {
			leading++
		} else if l.Op == gitdiff.OpContext {
			trailing++
		} else {
			changed = true
			trailing = 0
		}
	}
	f.OldPosition, f.NewPosition = sym.Int64("oldpos"), sym.Int64("newpos")
	f.OldLines, f.NewLines = sym.Int64("oldlines"), sym.Int64("newlines")
	f.LinesAdded, f.LinesDeleted = sym.Int64("added"), sym.Int64("deleted")
	f.LeadingContext, f.TrailingContext = sym.Int64("leading"), sym.Int64("trailing")
	want := sym.And(sym.And(sym.And(f.OldLines == old, f.NewLines == new), sym.And(f.LinesAdded == added, f.LinesDeleted == deleted)),
		sym.And(sym.And(f.LeadingContext == leading, f.TrailingContext == trailing), sym.Or(f.OldPosition != 0, f.OldLines == 0)))
	err := f.Validate()
	sym.Assert((err == nil) == sym.And(known, want), "Validate does not tell whether the fragment is self-consistent")
	if err == nil {
		sym.Reach("valid")
		return
	}
	sym.Reach("invalid")
	src := []byte("l0\nl1\nl2\nl3\n")
	if sym.Choose("empty", 2) == 1 {
		src = nil
	}
	var dst sink
	if sym.Choose("api", 2) == 0 {
		err = gitdiff.Apply(&dst, &memAt{src}, textFile(f))
	} else {
		err = gitdiff.NewTextApplier(&dst, &memAt{src}).ApplyFragment(f)
	}
	sym.Assert(err != nil, "an invalid fragment is applied")
	sym.Assert(len(dst.b) == 0, "data is written for an invalid fragment")
	sym.Assert(!isConflict(err), "an invalid fragment is reported as a conflict")
}

// C18_content 1..3 lines of 0..2 arbitrary bytes with any operation: whether a
// fragment is valid does not depend on the content, position or comment, and
// every consistent one is valid; a nil fragment is not.
func C18_content() {
	f := &gitdiff.TextFragment{Comment: sym.String("comment", 1)}
	for i, n := 0, 1+sym.Choose("lines", 3); i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 0, 2))
	}
	fill(f)
	f.OldPosition, f.NewPosition = sym.Int64("oldpos"), sym.Int64("newpos")
	sym.Assert((f.Validate() == nil) == sym.Or(f.OldPosition != 0, f.OldLines == 0), "a consistent fragment is invalid")
	f.OldLines++
	sym.Assert(f.Validate() != nil, "an inconsistent fragment is valid")
	sym.Assert((*gitdiff.TextFragment)(nil).Validate() != nil, "a nil fragment is valid")
}

// C18_second a valid fragment and one whose i-th count is off by any amount:
// nothing of the second is written, in either order.
func C18_second() {
	line := sym.String("x", 1) + "\n"
	good := fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: line}}})
	bad := fill(&gitdiff.TextFragment{OldPosition: 3, NewPosition: 3, Lines: []gitdiff.Line{{Op: gitdiff.OpContext, Line: "c\n"}, {Op: gitdiff.OpAdd, Line: "bad\n"}, {Op: gitdiff.OpContext, Line: "d\n"}}})
	off := sym.Int64("off")
	sym.Assume(off != 0)
	switch sym.Choose("count", 6) {
	case 0:
		bad.OldLines += off
	case 1:
		bad.NewLines += off
	case 2:
		bad.LinesAdded += off
	case 3:
		bad.LinesDeleted += off
	case 4:
		bad.LeadingContext += off
	case 5:
		bad.TrailingContext += off
	}
	f := textFile(good, bad)
	if sym.Choose("order", 2) == 1 {
		f = textFile(bad, good)
	}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{[]byte("a\nb\nc\nd\n")}, f)
	sym.Assert(err != nil && !isConflict(err), "an invalid fragment is applied or reported as a conflict")
	sym.Assert(isPrefix(dst.b, []byte(line)), "data is written for an invalid fragment")
}

// C18_kinds a File marked binary or not, with 0..2 text fragments (of one arbitrary
// byte), with or without a binary fragment (a literal, or a delta of the source) of one
// arbitrary byte: applied only if it is what it says.
func C18_kinds() {
	f := &gitdiff.File{IsBinary: sym.Bool("binary")}
	for i, n := 0, sym.Choose("texts", 3); i < n; i++ {
		f.TextFragments = append(f.TextFragments, fill(&gitdiff.TextFragment{OldPosition: int64(i + 1), NewPosition: int64(i + 1),
			Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "ab"[i:i+1] + "\n"}, {Op: gitdiff.OpAdd, Line: sym.String("t"+itoa(i), 1) + "\n"}}}))
	}
	switch sym.Choose("bin", 3) {
	case 1:
		f.BinaryFragment = literalFrag(sym.Bytes("l", 1))
	case 2:
		f.BinaryFragment = deltaFrag([]byte{4, 1, 1, sym.Byte("d")})
	}
	if sym.Bool("reverse") {
		f.ReverseBinaryFragment = literalFrag([]byte("r"))
	}
	good := !f.IsBinary && f.BinaryFragment == nil || f.IsBinary && f.BinaryFragment != nil && len(f.TextFragments) == 0
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{[]byte("a\nb\n")}, f)
	if good {
		sym.Assert(err == nil, "a consistent file is not applied")
		return
	}
	sym.Assert(err != nil, "a file is applied whose kind contradicts its fragments")
	sym.Assert(len(dst.b) == 0, "data is written for a file whose kind contradicts its fragments")
	sym.Assert(!isConflict(err), "a file whose kind contradicts its fragments is reported as a conflict")
	var ae *gitdiff.ApplyError
	sym.Assert(errors.As(err, &ae), "not an ApplyError")
}
