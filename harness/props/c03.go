package props

import (
	"bytes"
	"compress/zlib"
	"io"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// refInflate is the content of a zlib stream, or an error, by the standard
// library.
func refInflate(raw []byte) ([]byte, error) {
	zr, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

// readAllBy reads r to the end with a buffer of n bytes.
func readAllBy(r io.Reader, n int) ([]byte, error) {
	var out []byte
	buf := make([]byte, n)
	for i := 0; i < 200; i++ {
		m, err := r.Read(buf)
		out = append(out, buf[:m]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	sym.Assert(false, "the reader does not end")
	return nil, nil
}

func checkLiteral(raw []byte, size int64, want []byte, ok bool) {
	frag := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: size, RawData: raw}
	var dst sink
	src := []byte("source")[:sym.Choose("src", 2)*6]
	err := gitdiff.Apply(&dst, &memAt{src}, withAnyKind(&gitdiff.File{IsBinary: true, BinaryFragment: frag}))
	data, rerr := readAllBy(frag.Data(), 1+sym.Choose("bufsize", 3)*3)
	if ok {
		sym.Reach("intact")
		sym.Assert(err == nil, "an intact literal is rejected")
		sym.Assert(sym.EqBytes(dst.b, want), "a literal writes the wrong bytes")
		sym.Assert(rerr == nil && sym.EqBytes(data, want), "Data yields the wrong bytes")
	} else {
		sym.Reach("corrupt")
		sym.Assert(err != nil, "a corrupt literal is applied")
		sym.Assert(!isConflict(err), "a corrupt literal is reported as a Conflict")
		sym.Assert(rerr != nil, "Data ends normally for a corrupt literal")
		if size >= 0 && size < 1<<62 {
			sym.Assert(int64(len(data)) <= size+1, "Data yields more than Size+1 bytes")
			sym.Assert(int64(len(dst.b)) <= size+1, "Apply writes more than Size+1 bytes")
		}
	}
}

// C03_size payload of 0..4 (6) arbitrary bytes in stored blocks of 1, 2 or
// more bytes, trailing byte or not, read with
// buffers of 1, 4 and 7 bytes; declared sizes -3..6 and the six values from
// 509, 32765, 2^31-3, 2^62, 2^63-6 and -2^63.
func C03_size() {
	data := sym.Bytes("data", sym.Choose("len", pick(5, 7)))
	raw := stored(data, []int{1, 2, 65535}[sym.Choose("block", 3)])
	if sym.Choose("trailing", 2) == 1 {
		raw = append(raw, sym.Byte("trailing"))
	}
	base := []int64{-3, 1, 509, 32765, 1<<31 - 3, 1 << 62, 1<<63 - 6, -1 << 63}[sym.Choose("base", 8)]
	size := base + int64(sym.Int("size", 0, 5))
	checkLiteral(raw, size, data, size == int64(len(data)))
}

// C03_truncated payload of 1..3 arbitrary bytes, the stream cut at every
// point, declared size 0..4.
func C03_truncated() {
	data := sym.Bytes("data", 1+sym.Choose("len", 3))
	raw := stored(data, 2)
	cut := sym.Choose("cut", 30)
	sym.Assume(cut < len(raw))
	size := int64(sym.Int("size", 0, 4))
	checkLiteral(raw[:cut], size, nil, false)
}

// C03_flipped payload of 0..3 fixed bytes, any one byte of the stream replaced
// by an arbitrary byte; the standard library decides what the stream means.
func C03_flipped() {
	data := []byte("a\x05z")[:sym.Choose("len", 4)]
	raw := stored(data, 2)
	at := sym.Choose("at", 26)
	sym.Assume(at < len(raw))
	raw[at] = sym.Byte("byte")
	want, err := refInflate(raw)
	size := int64(sym.Int("size", 0, 4))
	checkLiteral(raw, size, want, err == nil && size == int64(len(want)))
}

// C03_checksum payload of 0..4 arbitrary bytes, an arbitrary checksum.
func C03_checksum() {
	data := sym.Bytes("data", sym.Choose("len", 5))
	raw := stored(data, 65535)
	sum := sym.Bytes("sum", 4)
	good := sym.EqBytes(sum, raw[len(raw)-4:])
	copy(raw[len(raw)-4:], sum)
	checkLiteral(raw, int64(len(data)), data, good)
}

// C03_any_stream a zlib header followed by 1..2 (4) arbitrary bytes of any
// deflate block type and a fixed tail, any declared size 0..4.
func C03_any_stream() {
	raw := []byte{0x78, 0x9c}
	raw = append(raw, sym.Bytes("block", 1+sym.Choose("n", pick(2, 4)))...)
	raw = append(raw, []byte{0, 0, 0, 0, 1}[:sym.Choose("tail", 6)]...)
	want, err := refInflate(raw)
	size := int64(sym.Int("size", 0, 4))
	checkLiteral(raw, size, want, err == nil && size == int64(len(want)))
}

// C03_fixed_huffman the deflate stream of 3 letters in a fixed-Huffman block
// (as zlib writes short data), each payload byte of the block arbitrary.
func C03_fixed_huffman() {
	// zlib.compress(b"abc")
	raw := []byte{0x78, 0x9c, 0x4b, 0x4c, 0x4a, 0x06, 0x00, 0x02, 0x4d, 0x01, 0x27}
	at := 2 + sym.Choose("at", 9)
	raw[at] = sym.Byte("byte")
	want, err := refInflate(raw)
	size := int64(sym.Int("size", 0, 5))
	checkLiteral(raw, size, want, err == nil && size == int64(len(want)))
}

// C03_header every pair of zlib header bytes before an intact stored block,
// and every raw data of 0..2 bytes.
func C03_header() {
	if sym.Choose("short", 2) == 1 {
		raw := sym.Bytes("raw", sym.Choose("n", 3))
		checkLiteral(raw, int64(sym.Int("size", 0, 1)), nil, false)
		return
	}
	raw := stored([]byte("xy"), 65535)
	raw[0], raw[1] = sym.Byte("cmf"), sym.Byte("flg")
	want, err := refInflate(raw)
	checkLiteral(raw, 2, want, err == nil)
}

// C03_large sizes around the 32 KiB copy buffer and two of them, 70000 and 140000, with an
// arbitrary last byte, declared size off by -1, 0 or 1.
func C03_large() {
	n := []int{511, 512, 513, 32767, 32768, 32769, 65536, 65537, 70000, 140000}[sym.Choose("n", 10)]
	data := varied(n)
	raw := stored(data, 32000)
	diff := int64(sym.Int("diff", -1, 1))
	size := int64(n) + diff
	frag := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: size, RawData: raw}
	var dst sink
	err := gitdiff.Apply(&dst, &memAt{nil}, withAnyKind(&gitdiff.File{IsBinary: true, BinaryFragment: frag}))
	if diff == 0 {
		sym.Assert(err == nil, "an intact literal is rejected")
		sym.Assert(sym.EqBytes(dst.b, data), "a literal writes the wrong bytes")
	} else {
		sym.Assert(err != nil, "a literal with the wrong size is applied")
		sym.Assert(int64(len(dst.b)) <= size+1, "Apply writes more than Size+1 bytes")
	}
}
