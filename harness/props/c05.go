package props

import (
	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// defaultLimit is the documented default of WithMaxBinaryFragmentBytes.
const defaultLimit = 100 << 20

// limitOpts are the ways of giving an effective limit; the last one wins.
func limitOpts(limit int64, kind int) []gitdiff.ApplyOption {
	switch kind {
	case 0:
		return []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(limit)}
	case 1:
		return []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(0), gitdiff.WithMaxBinaryFragmentBytes(limit)}
	case 2:
		return []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(-1), gitdiff.WithMaxBinaryFragmentBytes(limit)}
	default: // the default
		return nil
	}
}

func applyBinary(src []byte, frag *gitdiff.BinaryFragment, opts []gitdiff.ApplyOption) ([]byte, error) {
	var dst sink
	if sym.Choose("api", 2) == 0 {
		err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{IsBinary: true, BinaryFragment: frag}), opts...)
		return dst.b, err
	}
	a := gitdiff.NewBinaryApplier(&dst, &memAt{src}, opts...)
	err := a.ApplyFragment(frag)
	cerr := a.Close()
	if err == nil {
		err = cerr
	}
	return dst.b, err
}

// C05_literal a literal of 0..3 arbitrary bytes with any 64-bit declared size,
// any 64-bit limit given alone, after a smaller or after a disabled one.
func C05_literal() {
	data := sym.Bytes("data", sym.Choose("len", 4))
	frag := literalFrag(data)
	frag.Size = sym.Int64("size")
	limit := sym.Int64("limit")
	small := sym.Or(sym.And(frag.Size >= -2, frag.Size <= 6), frag.Size > 1<<20)
	sym.Assume(small)
	out, err := applyBinary(nil, frag, limitOpts(limit, sym.Choose("opts", 3)))
	if limit >= 0 && frag.Size > limit {
		sym.Reach("over")
		sym.Assert(err != nil, "a literal over the limit is applied")
		sym.Assert(len(out) == 0, "a literal over the limit is partly written")
		return
	}
	sym.Reach("within")
	sym.Assert((err == nil) == (frag.Size == int64(len(data))), "the limit changes a literal within it")
	if err == nil {
		sym.Assert(sym.EqBytes(out, data), "the limit changes the bytes of a literal")
	}
	if limit >= 0 {
		sym.Assert(int64(len(out)) <= limit || int64(len(out)) == frag.Size+1, "a literal writes more than the limit")
	}
}

// C05_literal_default no option: declared sizes around 100 MiB (and 0..6) on a
// literal of 3 bytes; within the limit the data is written before the wrong
// size is noticed, over it nothing is.
func C05_literal_default() {
	data := sym.Bytes("data", 3)
	frag := literalFrag(data)
	base := []int64{0, defaultLimit - 3, 1 << 31, 1 << 40}[sym.Choose("base", 4)]
	frag.Size = base + int64(sym.Int("size", 0, 6))
	out, err := applyBinary(nil, frag, nil)
	if frag.Size > defaultLimit {
		sym.Assert(err != nil, "a literal over the default limit is applied")
		sym.Assert(len(out) == 0, "a literal over the default limit is partly written")
	} else {
		sym.Assert((err == nil) == (frag.Size == 3), "the default limit changes a literal within it")
		if frag.Size >= 3 {
			sym.Assert(sym.EqBytes(out, data), "a literal within the default limit is not produced")
		}
	}
}

// varint is a delta size.
func varint(v int64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

// C05_delta_target a delta of one insert of 0..3 arbitrary bytes with a target
// size of up to two bytes, an empty or larger source, any limit from the size of the instructions on, and
// any negative limit.
func C05_delta_target() {
	n := sym.Choose("n", 4)
	data := sym.Bytes("data", n)
	target := int64(sym.Int("target", 0, 0x3fff))
	src := make([]byte, []int{0, 20000}[sym.Choose("src", 2)])
	delta := append(varint(int64(len(src))), byte(target&0x7f)|0x80, byte(target>>7))
	if n > 0 {
		delta = append(append(delta, byte(n)), data...)
	}
	limit := sym.Int64("limit")
	frag := deltaFrag(delta)
	out, err := applyBinary(src, frag, limitOpts(limit, sym.Choose("opts", 3)))
	switch {
	case limit >= 0 && frag.Size > limit:
		sym.Reach("over instructions")
		sym.Assert(err != nil, "a delta over the limit is applied")
		sym.Assert(len(out) == 0, "a delta over the limit is partly written")
	case limit >= 0 && target > limit:
		sym.Reach("over target")
		sym.Assert(err != nil, "a delta with a target over the limit is applied")
		sym.Assert(len(out) == 0, "a delta with a target over the limit is partly written")
	default:
		sym.Reach("within")
		sym.Assert((err == nil) == (target == int64(n)), "the limit changes a delta within it")
		sym.Assert(int64(len(out)) <= target, "a delta writes more than its target size")
		if target >= int64(n) {
			sym.Assert(sym.EqBytes(out, data), "a delta within the limit is not produced")
		}
	}
}

// C05_delta_default no option or a limit around 100 MiB: target sizes around
// 100 MiB and other powers of two on a delta with one insert.
func C05_delta_default() {
	base := []int64{defaultLimit - 2, 1<<31 - 2, 1<<32 - 2, 1<<62 - 2}[sym.Choose("base", 4)]
	target := base + int64(sym.Choose("target", 5))
	delta := append([]byte{0}, varint(target)...)
	b := sym.Byte("b")
	delta = append(delta, 1, b)
	var opts []gitdiff.ApplyOption
	limit := int64(defaultLimit)
	if sym.Choose("given", 2) == 1 {
		limit = base + int64(sym.Int("limit", 0, 4))
		opts = limitOpts(limit, 0)
	}
	out, err := applyBinary(nil, deltaFrag(delta), opts)
	sym.Assert(err != nil, "a delta with insufficient data is applied")
	if target > limit {
		sym.Assert(len(out) == 0, "a delta over the limit is partly written")
	} else {
		sym.Assert(len(out) == 1 && out[0] == b, "a delta within the limit is not produced")
	}
}

// C05_delta_ops deltas whose instructions produce more than the declared
// target: 1..3 instructions, each an insert of 1..3 bytes or a copy of 1..4
// bytes, target size 0..7; never more than the target is written, and never
// more than a limit between 0 and 40.
func C05_delta_ops() {
	src := sym.Bytes("src", 4)
	target := int64(sym.Int("target", 0, 7))
	delta := []byte{4, byte(target)}
	total := int64(0)
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		k := 1 + sym.Choose("kind"+itoa(i), 7)
		if k <= 3 {
			delta = append(delta, byte(k))
			delta = append(delta, sym.Bytes("data"+itoa(i), k)...)
			total += int64(k)
		} else {
			delta = append(delta, 0x90, byte(k-3))
			total += int64(k - 3)
		}
	}
	limit := int64(sym.Int("limit", -1, 20))
	frag := deltaFrag(delta)
	out, err := applyBinary(src, frag, limitOpts(limit, 0))
	sym.Assert(int64(len(out)) <= target, "a delta writes more than its target size")
	if limit >= 0 {
		sym.Assert(int64(len(out)) <= limit, "a delta writes more than the limit")
	}
	want := total == target
	if limit >= 0 && (frag.Size > limit || target > limit) {
		want = false
	}
	sym.Assert((err == nil) == want, "wrong verdict on a delta")
}
