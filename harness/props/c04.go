package props

import (
	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// refVarint is a delta size: little-endian groups of seven bits. ok is false
// when the data ends within it or the value does not fit 63 bits.
func refVarint(d []byte) (v int64, rest []byte, ok bool) {
	shift := uint(0)
	for i := 0; i < len(d); i++ {
		b := d[i]
		if shift >= 63 && b&0x7f != 0 {
			return 0, nil, false
		}
		v |= int64(b&0x7f) << shift
		shift += 7
		if b&0x80 == 0 {
			return v, d[i+1:], true
		}
	}
	return 0, nil, false
}

// refDelta is the meaning of a delta, from Git's pack-format documentation.
// bound restricts the copy sizes that are explored.
func refDelta(src, delta []byte, bound func(size int64)) (out []byte, ok bool) {
	srcSize, d, ok := refVarint(delta)
	if !ok {
		return nil, false
	}
	dstSize, d, ok := refVarint(d)
	if !ok {
		return nil, false
	}
	if srcSize != int64(len(src)) {
		return nil, false
	}
	for len(d) > 0 {
		op := d[0]
		d = d[1:]
		if op&0x80 != 0 {
			var off, size int64
			for i := uint(0); i < 4; i++ {
				if op&(1<<i) != 0 {
					if len(d) == 0 {
						return nil, false
					}
					off |= int64(d[0]) << (8 * i)
					d = d[1:]
				}
			}
			for i := uint(0); i < 3; i++ {
				if op&(0x10<<i) != 0 {
					if len(d) == 0 {
						return nil, false
					}
					size |= int64(d[0]) << (8 * i)
					d = d[1:]
				}
			}
			if bound != nil {
				bound(size)
			}
			if size == 0 {
				size = 0x10000
			}
			if off+size > int64(len(src)) || size > dstSize-int64(len(out)) {
				return nil, false
			}
			out = append(out, src[off:off+size]...)
		} else if op == 0 {
			return nil, false
		} else {
			n := int(op)
			if n > len(d) || int64(n) > dstSize-int64(len(out)) {
				return nil, false
			}
			out = append(out, d[:n]...)
			d = d[n:]
		}
	}
	return out, int64(len(out)) == dstSize
}

func checkDelta(src, delta []byte, bound func(int64)) {
	want, ok := refDelta(src, delta, bound)
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{IsBinary: true, BinaryFragment: deltaFrag(delta)}))
	if ok {
		sym.Reach("valid")
		sym.Assert(err == nil, "a valid delta is rejected")
		sym.Assert(sym.EqBytes(dst.b, want), "a delta writes the wrong bytes")
	} else {
		sym.Reach("corrupt")
		sym.Assert(err != nil, "a corrupt delta is applied")
	}
}

// smallCopy keeps copy sizes to at most 8, or 65536.
func smallCopy(size int64) { sym.Assume(size <= 8) }

// C04_ops source of 0..3 (4) arbitrary bytes, exact source size, target size
// 0..7, then 0..4 (5) arbitrary instruction bytes with copy sizes up to 8 or
// the default 0x10000.
func C04_ops() {
	src := sym.Bytes("src", sym.Choose("srclen", pick(4, 5)))
	delta := []byte{byte(len(src)), byte(sym.Int("target", 0, 7))}
	delta = append(delta, sym.Bytes("ops", sym.Choose("n", pick(5, 6)))...)
	checkDelta(src, delta, smallCopy)
}

// C04_header every delta of 0..4 (5) arbitrary bytes over a source of 0..2
// arbitrary bytes.
func C04_header() {
	src := sym.Bytes("src", sym.Choose("srclen", 3))
	delta := sym.Bytes("delta", sym.Choose("n", pick(5, 6)))
	checkDelta(src, delta, smallCopy)
}

// C04_long_sizes source and target sizes written with 1..10 bytes, the last
// two arbitrary, the others zero with a continuation bit; then nothing, or
// the insertion that a small target needs.
func C04_long_sizes() {
	src := []byte("ab")
	enc := func(name string, v byte) []byte {
		n := 1 + sym.Choose(name+".n", 10)
		out := []byte{v | 0x80}
		for i := 1; i < n; i++ {
			out = append(out, 0x80)
		}
		if n == 1 {
			out[0] = sym.Byte(name)
			return out
		}
		out[n-1] = sym.Byte(name)
		if n > 2 {
			out[n-2] = sym.Byte(name + ".b")
		}
		return out
	}
	delta := append(enc("src", 2), enc("dst", byte(sym.Choose("tgt", 2)))...)
	if sym.Choose("insert", 2) == 1 {
		delta = append(delta, 1, 'x')
	}
	checkDelta(src, delta, smallCopy)
}

// C04_two_ops an insert of 1 (1..3) arbitrary bytes, then a copy with every
// combination of offset and size bytes present, the lowest two arbitrary
// and small, then possibly one more byte; target size 1..9.
func C04_two_ops() {
	src := sym.Bytes("src", 5)
	n := 1 + sym.Choose("ins", pick(1, 3))
	delta := []byte{5, byte(sym.Int("target", 1, 9)), byte(n)}
	delta = append(delta, sym.Bytes("data", n)...)
	flags := sym.Choose("flags", 128)
	delta = append(delta, byte(0x80|flags))
	for i := 0; i < 7; i++ {
		if flags&(1<<i) != 0 {
			switch i {
			case 0:
				delta = append(delta, byte(sym.Int("off", 0, 7)))
			case 4:
				delta = append(delta, byte(sym.Int("size", 0, 7)))
			default:
				delta = append(delta, byte(sym.Int("hi"+itoa(i), 0, 1)))
			}
		}
	}
	delta = append(delta, sym.Bytes("more", sym.Choose("more", 2))...)
	checkDelta(src, delta, nil)
}

// C04_big_copy source of 0x10003 bytes with three arbitrary ones, one copy of
// every size around 0xFF, 0xFFFF and 0x10000 (also as the default) at offsets
// 0..4 and around 0xFF, exact or wrong target size.
func C04_big_copy() {
	src := varied(0x10003)
	src[0], src[0x100], src[0x10002] = sym.Byte("a"), sym.Byte("b"), sym.Byte("c")
	size := []int{0xFE, 0xFF, 0x100, 0x101, 0xFFFF, 0x10000, 0x10001, 0x10003}[sym.Choose("size", 8)]
	off := []int{0, 1, 3, 4, 0xFF, 0x100, 0x101}[sym.Choose("off", 7)]
	target := size + sym.Int("diff", -1, 1)
	varint := func(v int) []byte {
		var out []byte
		for v >= 0x80 {
			out = append(out, byte(v)|0x80)
			v >>= 7
		}
		return append(out, byte(v))
	}
	target = sym.Concrete(target)
	delta := append(varint(len(src)), varint(target)...)
	op := byte(0x80)
	var args []byte
	for i := uint(0); i < 4; i++ {
		if b := byte(off >> (8 * i)); b != 0 {
			op |= 1 << i
			args = append(args, b)
		}
	}
	if size != 0x10000 || sym.Choose("explicit", 2) == 1 {
		for i := uint(0); i < 3; i++ {
			if b := byte(size >> (8 * i)); b != 0 {
				op |= 0x10 << i
				args = append(args, b)
			}
		}
	}
	delta = append(append(delta, op), args...)
	checkDelta(src, delta, nil)
}

// C04_source_size a copy of the whole source of 0..4 arbitrary bytes with an
// arbitrary declared source size of up to 14 bits.
func C04_source_size() {
	src := sym.Bytes("src", sym.Choose("srclen", 5))
	delta := []byte{sym.Byte("size")}
	if sym.Choose("two", 2) == 1 {
		delta = []byte{sym.Byte("lo") | 0x80, sym.Byte("hi") & 0x7f}
	}
	delta = append(delta, 1, 1, 'x')
	checkDelta(src, delta, smallCopy)
}

// C04_insert_length inserts of 1, 2, 126 and 127 bytes, complete or short by
// one byte, with the target size exact or off by one.
func C04_insert_length() {
	n := []int{1, 2, 126, 127}[sym.Choose("n", 4)]
	have := n - sym.Choose("short", 2)
	data := varied(have)
	if have > 0 {
		data[have-1] = sym.Byte("last")
	}
	delta := []byte{0}
	t := n + sym.Concrete(sym.Int("diff", -1, 1))
	if t >= 0x80 {
		delta = append(delta, byte(t)|0x80, byte(t>>7))
	} else {
		delta = append(delta, byte(t))
	}
	delta = append(delta, byte(n))
	delta = append(delta, data...)
	checkDelta(nil, delta, nil)
}

// C04_stream a delta (a copy of the source, an insert of 0..2 arbitrary bytes) whose
// compressed stream has an arbitrary checksum, is cut at any point, has a byte after
// the instructions or a declared size of 0..12: unless the stream is intact and as
// long as declared nothing is written.
func C04_stream() {
	src := []byte("ab")
	ins := sym.Bytes("ins", sym.Choose("ilen", 3))
	delta := []byte{2, byte(2 + len(ins)), 0x90, 2}
	if len(ins) > 0 {
		delta = append(append(delta, byte(len(ins))), ins...)
	}
	frag := deltaFrag(delta)
	ok := true
	switch sym.Choose("fault", 4) {
	case 0:
		sum := sym.Bytes("sum", 4)
		at := len(frag.RawData) - 4
		ok = sym.EqBytes(sum, frag.RawData[at:])
		copy(frag.RawData[at:], sum)
	case 1:
		cut := sym.Choose("cut", 30)
		sym.Assume(cut < len(frag.RawData))
		frag.RawData = frag.RawData[:cut]
		ok = false
	case 2:
		frag.Size = int64(sym.Int("size", 0, 12))
		ok = frag.Size == int64(len(delta))
	case 3:
		// the instructions are complete but the stream goes on
		frag = deltaFrag(append(delta, 1, 'x'))
		frag.Size = int64(len(delta))
		ok = false
	}
	var dst sink
	err := gitdiff.NewBinaryApplier(&dst, &memAt{src}).ApplyFragment(frag)
	if ok {
		sym.Reach("intact")
		sym.Assert(err == nil, "an intact delta is rejected")
		sym.Assert(sym.EqBytes(dst.b, append([]byte("ab"), ins...)), "a delta writes the wrong bytes")
		return
	}
	sym.Reach("corrupt")
	sym.Assert(err != nil, "a delta in a corrupt stream is applied")
	sym.Assert(len(dst.b) == 0, "data is written for a delta in a corrupt stream")
	sym.Assert(!isConflict(err), "a corrupt stream is reported as a conflict")
}
