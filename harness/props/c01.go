package props

import (
	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// checkApply compares Apply with refApply.
func checkApply(src []byte, frags []*gitdiff.TextFragment) {
	want, ok := refApply(src, frags)
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{TextFragments: frags}))
	if ok {
		sym.Reach("applied")
		sym.Assert(err == nil, "Apply rejects a fragment that matches the source")
		sym.Assert(sym.EqBytes(dst.b, want), "Apply writes the wrong bytes")
	} else {
		sym.Reach("rejected")
		sym.Assert(err != nil, "Apply accepts a fragment that does not match the source")
		sym.Assert(isConflict(err), "a mismatch with the source is not a Conflict")
	}
}

// C01_one_fragment source of 0..5 (quick) or 0..7 (thorough) arbitrary bytes,
// one fragment of 1..2 (3) lines with any operations and 0..2 arbitrary bytes
// each, or no lines at all, any old position 0..5 (7), any new position.
func C01_one_fragment() {
	src := sym.Bytes("src", sym.Choose("srclen", pick(6, 8)))
	n := sym.Choose("lines", pick(3, 4))
	f := &gitdiff.TextFragment{}
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 0, 2))
	}
	fill(f)
	f.OldPosition = int64(sym.Int("oldpos", 0, pick(5, 7)))
	f.NewPosition = sym.Int64("newpos")
	sym.Assume(f.NewPosition >= 0)
	sym.Assume(sym.Or(f.OldPosition > 0, f.OldLines == 0))
	checkApply(src, []*gitdiff.TextFragment{f})
}

// C01_far_position source of 3 arbitrary bytes, one fragment of one or two
// one-byte lines, old positions 0..5 past 4093, 2^31-3, 2^32-3, 2^62 and
// 2^63-6, any new position.
func C01_far_position() {
	src := sym.Bytes("src", 3)
	n := 1 + sym.Choose("lines", 2)
	f := &gitdiff.TextFragment{}
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 1, 1))
	}
	fill(f)
	base := []int64{4093, 1<<31 - 3, 1<<32 - 3, 1 << 62, 1<<63 - 6}[sym.Choose("base", 5)]
	f.OldPosition = base + int64(sym.Int("pos", 0, 5))
	f.NewPosition = sym.Int64("newpos")
	sym.Assume(f.NewPosition >= 0)
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{TextFragments: []*gitdiff.TextFragment{f}}))
	sym.Assert(err != nil, "Apply accepts a fragment past the end of the source")
	if base < 1<<62 {
		sym.Assert(isConflict(err), "a fragment past the end of the source is not a Conflict")
	}
}

// C01_two_fragments source of 4 (5) arbitrary bytes, two fragments of one or
// two lines of one or two arbitrary bytes at any positions in order.
func C01_two_fragments() {
	src := sym.Bytes("src", pick(4, 5))
	mk := func(name string, max int) *gitdiff.TextFragment {
		f := &gitdiff.TextFragment{NewPosition: 1}
		n := 1 + sym.Choose(name+".n", max)
		for i := 0; i < n; i++ {
			f.Lines = append(f.Lines, symLine(name+itoa(i), 1, 2))
		}
		fill(f)
		f.OldPosition = int64(sym.Int(name+".pos", 1, pick(3, 4)))
		return f
	}
	a, b := mk("a", pick(1, 2)), mk("b", 2)
	sym.Assume(refStart(a) <= refStart(b))
	sym.Assume(sym.Or(refStart(a) < refStart(b), a.OldLines < b.OldLines))
	checkApply(src, []*gitdiff.TextFragment{a, b})
}

// C01_three_fragments source of three two-byte lines (first bytes arbitrary),
// three fragments at increasing positions 1..4, each with one line of any
// operation and arbitrary first byte.
func C01_three_fragments() {
	c := sym.Bytes("src", 3)
	src := []byte{c[0], '\n', c[1], '\n', c[2], '\n'}
	for _, b := range c {
		sym.Assume(b != '\n')
	}
	var frags []*gitdiff.TextFragment
	for i := 0; i < 3; i++ {
		name := "f" + itoa(i)
		op := opOf[sym.Choose(name+".op", 3)]
		f := fill(&gitdiff.TextFragment{NewPosition: 1, Lines: []gitdiff.Line{{Op: op, Line: sym.String(name, 1) + "\n"}}})
		f.OldPosition = int64(sym.Int(name+".pos", 1, 4))
		if i > 0 {
			p := frags[i-1]
			sym.Assume(refStart(p) <= refStart(f))
			sym.Assume(sym.Or(refStart(p) < refStart(f), p.OldLines < f.OldLines))
		}
		frags = append(frags, f)
	}
	checkApply(src, frags)
}

// C01_many_lines source of 30..34 and 62..66 (thorough also 94..98) lines
// whose last byte is arbitrary, so that the final newline may be missing; a
// fragment replacing or inserting an arbitrary byte at any position.
func C01_many_lines() {
	k := sym.Choose("lines", pick(10, 15))
	n := []int{30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 94, 95, 96, 97, 98}[k]
	src := []byte(repeat("a\n", n))
	src[len(src)-1] = sym.Byte("last")
	f := &gitdiff.TextFragment{NewPosition: 1}
	switch sym.Choose("kind", 3) {
	case 0:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: sym.String("new", 2)}}
	case 1:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpAdd, Line: sym.String("new", 2)}}
	case 2:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpContext, Line: "a" + sym.String("ctx", 1)}, {Op: gitdiff.OpAdd, Line: "b\n"}}
	}
	fill(f)
	f.OldPosition = int64(sym.Int("pos", 1, n+1))
	checkApply(src, []*gitdiff.TextFragment{f})
}

// C01_long_lines source of three lines, the first of 1020..1027 bytes (the
// size of the index buffer and around it), one arbitrary byte at its end and
// one in the second line; a fragment deleting or inserting at any position.
func C01_long_lines() {
	n := 1019 + sym.Choose("len", 8)
	src := []byte(letters(n))
	src = append(src, sym.Byte("c"), '\n', sym.Byte("d"), '\n', 'e')
	f := &gitdiff.TextFragment{NewPosition: 1}
	switch sym.Choose("kind", 3) {
	case 0:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: sym.String("old", 1) + "\n"}}
	case 1:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpAdd, Line: sym.String("new", 1) + "\n"}}
	case 2:
		f.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "e"}}
	}
	fill(f)
	f.OldPosition = int64(sym.Int("pos", 1, 6))
	checkApply(src, []*gitdiff.TextFragment{f})
}

// C01_long_preimage source of 4098..4100 lines, of which those behind the 4090th are
// empty, and a fragment at old position
// 4094..4101, so that what precedes it spans the 4096-line read chunk; the
// fragment's line is arbitrary.
func C01_long_preimage() {
	n := 4098 + sym.Choose("lines", pick(1, 3))
	src := []byte(numbered("", 4090) + repeat("\n", n-4090))
	f := &gitdiff.TextFragment{NewPosition: 1}
	f.Lines = []gitdiff.Line{{Op: opOf[sym.Choose("op", 3)], Line: sym.String("line", 1)}, {Op: gitdiff.OpAdd, Line: "x\n"}}
	fill(f)
	f.OldPosition = int64(sym.Int("pos", 4094, 4101))
	checkApply(src, []*gitdiff.TextFragment{f})
}

// C01_no_fragments a File without fragments copies the source: every content
// of 0..3 bytes, and sizes around one and two 32 KiB buffers with an arbitrary
// last byte.
func C01_no_fragments() {
	var src []byte
	if sym.Choose("big", 2) == 0 {
		src = sym.Bytes("src", sym.Choose("len", 4))
	} else {
		n := []int{32767, 32768, 32769, 65535, 65536, 65537}[sym.Choose("size", 6)]
		src = varied(n)
		src[n-1] = sym.Byte("last")
	}
	checkApply(src, nil)
}

// C01_kinds a source of 0..3 arbitrary bytes and a fragment of one or two lines of one
// arbitrary byte in a File of any kind (new, deleted, copied, renamed in any
// combination, any modes, score, object ids, with or without either name): none of it matters.
func C01_kinds() {
	src := sym.Bytes("src", sym.Choose("srclen", 4))
	f := &gitdiff.TextFragment{NewPosition: int64(sym.Choose("newpos", 2))}
	for i, n := 0, 1+sym.Choose("lines", 2); i < n; i++ {
		f.Lines = append(f.Lines, symLine("l"+itoa(i), 1, 1))
	}
	fill(f)
	f.OldPosition = int64(sym.Choose("oldpos", 4))
	sym.Assume(f.OldPosition > 0 || f.OldLines == 0)
	want, ok := refApply(src, []*gitdiff.TextFragment{f})
	file := withAnyKind(&gitdiff.File{TextFragments: []*gitdiff.TextFragment{f}})
	switch sym.Choose("names", 3) {
	case 1:
		file.OldName = ""
	case 2:
		file.NewName = ""
	}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, file)
	sym.Assert((err == nil) == ok, "the kind of a file decides whether a fragment applies")
	if ok {
		sym.Assert(sym.EqBytes(dst.b, want), "Apply writes the wrong bytes")
	}
}
