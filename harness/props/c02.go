package props

import (
	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// cloneFrag is a deep copy of a fragment.
func cloneFrag(f *gitdiff.TextFragment) *gitdiff.TextFragment {
	c := *f
	c.Lines = append([]gitdiff.Line(nil), f.Lines...)
	return &c
}

// sameFrag compares every field of two fragments.
func sameFrag(a, b *gitdiff.TextFragment) bool {
	if len(a.Lines) != len(b.Lines) {
		return false
	}
	if a.Comment != b.Comment ||
		a.OldPosition != b.OldPosition || a.OldLines != b.OldLines ||
		a.NewPosition != b.NewPosition || a.NewLines != b.NewLines ||
		a.LinesAdded != b.LinesAdded || a.LinesDeleted != b.LinesDeleted ||
		a.LeadingContext != b.LeadingContext || a.TrailingContext != b.TrailingContext {
		return false
	}
	for i := range a.Lines {
		if a.Lines[i].Op != b.Lines[i].Op || a.Lines[i].Line != b.Lines[i].Line {
			return false
		}
	}
	return true
}

// orders are the permutations of three items.
var orders = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// checkOrder applies frags in the listed order and checks the result against
// the reference in sorted order, and that nothing was modified.
func checkOrder(src []byte, sorted, listed []*gitdiff.TextFragment) {
	var copies []*gitdiff.TextFragment
	for _, f := range listed {
		copies = append(copies, cloneFrag(f))
	}
	file := withAnyKind(&gitdiff.File{TextFragments: append([]*gitdiff.TextFragment(nil), listed...)})
	before := *file
	srcCopy := append([]byte(nil), src...)

	want, ok := refApply(src, sorted)
	for round := 0; round < 2; round++ {
		var dst sink
		err := gitdiff.Apply(&dst, &memAt{src}, file)
		sym.Assert((err == nil) == ok, "Apply depends on the order of the fragments or on an earlier Apply")
		if ok {
			sym.Assert(sym.EqBytes(dst.b, want), "the output depends on the order of the fragments or on an earlier Apply")
		} else {
			sym.Assert(isConflict(err), "the failure is not a Conflict")
		}
		sym.Assert(len(file.TextFragments) == len(listed), "Apply changes the fragment list")
		for i, f := range file.TextFragments {
			sym.Assert(f == listed[i], "Apply reorders the fragments of the File")
			sym.Assert(sameFrag(f, copies[i]), "Apply modifies a fragment")
		}
		sym.Assert(sym.EqBytes(src, srcCopy), "Apply modifies the source")
	}
	sym.Assert(sameFile(file, &before), "Apply modifies the File")
}

// before is the order of fragments in the source.
func before(a, b *gitdiff.TextFragment) bool {
	return sym.Or(refStart(a) < refStart(b), sym.And(refStart(a) == refStart(b), a.OldLines < b.OldLines))
}

// C02_two source of 4 (5) arbitrary bytes, two fragments of one or two lines
// with arbitrary contents, any positions 1..4, listed in both orders.
func C02_two() {
	src := sym.Bytes("src", pick(4, 5))
	mk := func(name string, max int) *gitdiff.TextFragment {
		f := &gitdiff.TextFragment{NewPosition: 1}
		n := 1 + sym.Choose(name+".n", max)
		for i := 0; i < n; i++ {
			f.Lines = append(f.Lines, symLine(name+itoa(i), 1, 2))
		}
		fill(f)
		f.OldPosition = int64(sym.Int(name+".pos", 1, 4))
		return f
	}
	a, b := mk("a", 2), mk("b", pick(1, 2))
	sym.Assume(before(a, b))
	checkOrder(src, []*gitdiff.TextFragment{a, b}, []*gitdiff.TextFragment{b, a})
}

// C02_three source of four lines, three fragments of one line each (any
// operation) at any positions 1..5, listed in every order.
func C02_three() {
	c := sym.Bytes("src", 4)
	src := []byte{c[0], '\n', c[1], '\n', c[2], '\n', c[3], '\n'}
	for _, b := range c {
		sym.Assume(b != '\n')
	}
	var frags []*gitdiff.TextFragment
	for i := 0; i < 3; i++ {
		name := "f" + itoa(i)
		op := opOf[sym.Choose(name+".op", 3)]
		f := fill(&gitdiff.TextFragment{NewPosition: 1, Lines: []gitdiff.Line{{Op: op, Line: sym.String(name, 1) + "\n"}}})
		f.OldPosition = int64(sym.Int(name+".pos", 1, 5))
		if i > 0 {
			sym.Assume(before(frags[i-1], f))
		}
		frags = append(frags, f)
	}
	o := orders[sym.Choose("order", 6)]
	checkOrder(src, frags, []*gitdiff.TextFragment{frags[o[0]], frags[o[1]], frags[o[2]]})
}

// C02_many 13 or 14 one-line fragments (more than the insertion-sort
// threshold of the standard library) over 40 lines, listed rotated by any
// amount and reversed or not, one of them with arbitrary content.
func C02_many() {
	n := 13 + sym.Choose("n", 2)
	src := []byte(numbered("a", 40))
	var frags []*gitdiff.TextFragment
	odd := sym.Choose("odd", n)
	for i := 0; i < n; i++ {
		f := &gitdiff.TextFragment{OldPosition: int64(2*i + 1), NewPosition: 1}
		old := "a" + itoa(2*i) + "\n"
		if i == odd {
			old = "a" + sym.String("old", 1) + old[2:]
		}
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: old}, {Op: gitdiff.OpAdd, Line: itoa(i) + "\n"}}
		frags = append(frags, fill(f))
	}
	rot := sym.Choose("rot", n)
	rev := sym.Choose("rev", 2) == 1
	listed := make([]*gitdiff.TextFragment, n)
	for i := range listed {
		j := (i + rot) % n
		if rev {
			j = n - 1 - j
		}
		listed[i] = frags[j]
	}
	checkOrder(src, frags, listed)
}

// C02_overlap two fragments whose old ranges share a line, or one listed twice, are a Conflict in
// either order, whatever the source of six lines with arbitrary contents.
func C02_overlap() {
	c := sym.Bytes("src", 6)
	var src []byte
	for _, b := range c {
		src = append(src, b, '\n')
		sym.Assume(b != '\n')
	}
	mk := func(name string) *gitdiff.TextFragment {
		f := &gitdiff.TextFragment{NewPosition: 1, OldPosition: int64(sym.Int(name+".pos", 1, 5))}
		n := 1 + sym.Choose(name+".n", 3)
		for i := 0; i < n; i++ {
			f.Lines = append(f.Lines, gitdiff.Line{Op: opOf[sym.Choose(name+".op"+itoa(i), 2)], Line: sym.String(name, 1) + "\n"})
		}
		return fill(f)
	}
	a := mk("a")
	b := a
	if sym.Choose("same", 2) == 0 {
		b = mk("b")
	}
	sym.Assume(a.OldPosition < b.OldPosition+b.OldLines)
	sym.Assume(b.OldPosition < a.OldPosition+a.OldLines)
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: []*gitdiff.TextFragment{a, b}})
	sym.Assert(err != nil, "overlapping fragments are applied")
	sym.Assert(isConflict(err), "overlapping fragments are not a Conflict")
}

// C02_readonly String, Header, Validate and Line methods leave a fragment and
// its File as they were: 1..2 lines with arbitrary contents and operations.
func C02_readonly() {
	f := &gitdiff.TextFragment{OldPosition: int64(sym.Int("pos", 0, 2)), NewPosition: 1, Comment: sym.String("comment", sym.Choose("clen", 2))}
	n := 1 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 0, 2))
	}
	if sym.Choose("consistent", 2) == 1 {
		fill(f)
	}
	c := cloneFrag(f)
	bin := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 3, RawData: sym.Bytes("raw", 5)}
	raw := append([]byte(nil), bin.RawData...)
	file := &gitdiff.File{OldName: "a" + sym.String("name", 1), NewName: "b", IsRename: true, TextFragments: []*gitdiff.TextFragment{f}, ReverseBinaryFragment: bin}
	fc := *file
	s1 := file.String()
	h1 := f.Header()
	t1 := f.String()
	b1 := bin.String()
	e1 := f.Validate()
	sym.Assert(file.String() == s1 && f.Header() == h1 && f.String() == t1 && bin.String() == b1, "formatting twice differs")
	sym.Assert((f.Validate() == nil) == (e1 == nil), "validating twice differs")
	sym.Assert(sameFrag(f, c), "a read-only method modifies the fragment")
	sym.Assert(sym.EqBytes(bin.RawData, raw) && bin.Size == 3 && bin.Method == gitdiff.BinaryPatchLiteral, "a read-only method modifies the binary fragment")
	sym.Assert(file.OldName == fc.OldName && file.NewName == fc.NewName && file.IsRename && len(file.TextFragments) == 1 && file.TextFragments[0] == f, "a read-only method modifies the File")
}

// C02_binary applying a binary File twice gives the same bytes and leaves its
// fragment and the source as they were: literal and delta with three
// arbitrary bytes.
func C02_binary() {
	var frag *gitdiff.BinaryFragment
	src := sym.Bytes("src", 3)
	body := sym.Bytes("body", 3)
	if sym.Choose("delta", 2) == 1 {
		frag = deltaFrag(append([]byte{3, 6, 3, body[0], body[1], body[2], 0x90, 3}))
	} else {
		frag = literalFrag(body)
	}
	raw := append([]byte(nil), frag.RawData...)
	size := frag.Size
	srcCopy := append([]byte(nil), src...)
	file := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: frag}
	var first, second sink
	e1 := gitdiff.Apply(&first, &memAt{src}, file)
	e2 := gitdiff.Apply(&second, &memAt{src}, file)
	sym.Assert(e1 == nil && e2 == nil, "a valid binary fragment is rejected")
	sym.Assert(sym.EqBytes(first.b, second.b), "applying twice differs")
	sym.Assert(sym.EqBytes(frag.RawData, raw) && frag.Size == size && file.BinaryFragment == frag, "Apply modifies the binary fragment")
	sym.Assert(sym.EqBytes(src, srcCopy), "Apply modifies the source")
}

// sameFile compares every field of two Files, fragments by identity.
func sameFile(a, b *gitdiff.File) bool {
	same := a.OldName == b.OldName && a.NewName == b.NewName &&
		a.IsNew == b.IsNew && a.IsDelete == b.IsDelete && a.IsCopy == b.IsCopy && a.IsRename == b.IsRename &&
		a.OldMode == b.OldMode && a.NewMode == b.NewMode &&
		a.OldOIDPrefix == b.OldOIDPrefix && a.NewOIDPrefix == b.NewOIDPrefix && a.Score == b.Score &&
		a.IsBinary == b.IsBinary &&
		a.BinaryFragment == b.BinaryFragment && a.ReverseBinaryFragment == b.ReverseBinaryFragment &&
		len(a.TextFragments) == len(b.TextFragments)
	if !same {
		return false
	}
	for i := range a.TextFragments {
		if a.TextFragments[i] != b.TextFragments[i] {
			return false
		}
	}
	return true
}

// C02_fields a File with any flags, modes, names (equal, different or empty),
// object IDs and score, and a text or two binary fragments whose data lie in
// one buffer of 20 arbitrary bytes, formatted and applied twice each.
func C02_fields() {
	f := &gitdiff.File{
		OldName: []string{"", "a", "d/é"}[sym.Choose("old", 3)], NewName: []string{"", "a", "b c"}[sym.Choose("new", 3)],
		OldMode: 0o100644, NewMode: 0o100755,
		OldOIDPrefix: "12", NewOIDPrefix: "34", Score: 7,
	}
	f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = sym.Bool("isnew"), sym.Bool("isdelete"), sym.Bool("iscopy"), sym.Bool("isrename")
	if sym.Choose("modes", 2) == 1 {
		f.OldMode, f.NewMode = 0o120000, 0
	}
	buf := sym.Bytes("buf", 20)
	n := 0
	switch sym.Choose("kind", 4) {
	case 0:
	case 1:
		f.TextFragments = []*gitdiff.TextFragment{
			fill(&gitdiff.TextFragment{OldPosition: 2, NewPosition: 2, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: sym.String("l", 2)}}}),
			fill(&gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpContext, Line: "x\n"}}})}
	case 2:
		f.IsBinary = true
		n = 1 + sym.Choose("n", 5)
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 9, RawData: buf[:n]}
		f.ReverseBinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: 8, RawData: buf[n : n+7]}
	case 3:
		f.IsBinary = true
	}
	fc, bc := *f, append([]byte(nil), buf...)
	fc.TextFragments = append([]*gitdiff.TextFragment(nil), f.TextFragments...)
	var bin [2]gitdiff.BinaryFragment
	if f.BinaryFragment != nil {
		bin[0], bin[1] = *f.BinaryFragment, *f.ReverseBinaryFragment
	}
	src := []byte("x\ny\n")
	var first string
	for i := 0; i < 2; i++ {
		s := f.String()
		if i == 0 {
			first = s
		}
		sym.Assert(s == first, "formatting twice differs")
		sym.Assert(sameFile(f, &fc), "String modifies the File")
		sym.Assert(sym.EqBytes(buf, bc), "String modifies the data of a binary fragment or what follows them")
	}
	for i := 0; i < 2 && n == 0; i++ {
		var dst sink
		_ = gitdiff.Apply(&dst, &memAt{src}, f)
		sym.Assert(sameFile(f, &fc), "Apply modifies the File")
	}
	if n > 0 {
		for i, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			sym.Assert(b.Method == bin[i].Method && b.Size == bin[i].Size && len(b.RawData) == len(bin[i].RawData) && cap(b.RawData) == cap(bin[i].RawData), "String modifies a binary fragment")
		}
	}
}
