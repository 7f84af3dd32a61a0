package props

import (
	"hash/adler32"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// stored is a zlib stream holding data in uncompressed blocks of at most max
// bytes. The content may be symbolic.
func stored(data []byte, max int) []byte {
	z := []byte{0x78, 0x01}
	sum := adler32.Checksum(data)
	rest := data
	for {
		n := len(rest)
		last := byte(1)
		if n > max {
			n, last = max, 0
		}
		z = append(z, last, byte(n), byte(n>>8), byte(^n), byte(^n>>8))
		z = append(z, rest[:n]...)
		rest = rest[n:]
		if last == 1 {
			break
		}
	}
	return append(z, byte(sum>>24), byte(sum>>16), byte(sum>>8), byte(sum))
}

func literalFrag(data []byte) *gitdiff.BinaryFragment {
	return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(data)), RawData: stored(data, 65535)}
}

func deltaFrag(delta []byte) *gitdiff.BinaryFragment {
	return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(delta)), RawData: stored(delta, 65535)}
}
