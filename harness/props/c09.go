package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

const gitBase85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// gitEncode85 is Git's encoding of data as the lines of a binary hunk
// (emit_binary_diff_body and encode_85).
func gitEncode85(data []byte) string {
	var out []byte
	for len(data) > 0 {
		n := len(data)
		if n > 52 {
			n = 52
		}
		if n <= 26 {
			out = append(out, byte(n+'A'-1))
		} else {
			out = append(out, byte(n-26+'a'-1))
		}
		for i := 0; i < n; i += 4 {
			acc := uint32(0)
			for j := 0; j < 4; j++ {
				acc <<= 8
				if i+j < n {
					acc |= uint32(data[i+j])
				}
			}
			var g [5]byte
			for k := 4; k >= 0; k-- {
				g[k] = gitBase85[acc%85]
				acc /= 85
			}
			out = append(out, g[:]...)
		}
		out = append(out, '\n')
		data = data[n:]
	}
	return string(append(out, '\n'))
}

func binFile(fwd, rev *gitdiff.BinaryFragment) *gitdiff.File {
	return &gitdiff.File{OldName: "x", NewName: "x", IsBinary: true, BinaryFragment: fwd, ReverseBinaryFragment: rev}
}

func gitBinary(f *gitdiff.BinaryFragment) string {
	s := "literal "
	if f.Method == gitdiff.BinaryPatchDelta {
		s = "delta "
	}
	return s + itoa(int(f.Size)) + "\n" + gitEncode85(f.RawData)
}

var binMethods = []gitdiff.BinaryPatchMethod{gitdiff.BinaryPatchDelta, gitdiff.BinaryPatchLiteral}

// checkBinary formats a binary file, compares with the text Git writes and
// parses it again.
func checkBinary(fwd, rev *gitdiff.BinaryFragment) {
	f := binFile(fwd, rev)
	want := "diff --git a/x b/x\nGIT binary patch\n" + gitBinary(fwd)
	if rev != nil {
		want += gitBinary(rev)
	}
	sym.Assert(f.String() == want, "the text is not the one Git writes")
	checkRoundTrip(f)
}

// C09_data raw data of every length 0..120 (0..330), every byte arbitrary.
func C09_data() {
	n := sym.Choose("len", pick(121, 331))
	checkBinary(&gitdiff.BinaryFragment{Method: binMethods[sym.Choose("method", 2)], Size: int64(n), RawData: sym.Bytes("data", n)}, nil)
}

// C09_reverse forward and reverse fragments of 0..9 and of 51..53 arbitrary
// bytes, every combination of methods, each size independent of its data.
func C09_reverse() {
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 51, 52, 53}
	mk := func(name string) *gitdiff.BinaryFragment {
		return &gitdiff.BinaryFragment{
			Method:  binMethods[sym.Choose(name+".method", 2)],
			Size:    int64([]int{0, 7, 123456}[sym.Choose(name+".size", 3)]),
			RawData: sym.Bytes(name, lens[sym.Choose(name+".len", len(lens))]),
		}
	}
	checkBinary(mk("fwd"), mk("rev"))
}

// C09_sizes declared sizes 0..2^63-1 made of twelve patterns and an arbitrary
// last digit, in the forward and the reverse fragment.
func C09_sizes() {
	base := []int64{0, 10, 90, 100, 990, 12340, 1<<31 - 8, 1 << 32, 999999999990, 1 << 62, 1<<63 - 18, 1<<63 - 10}[sym.Choose("base", 12)]
	size := base + int64(sym.Concrete(sym.Int("digit", 0, 9)))
	fwd := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: size, RawData: []byte("ab")}
	rev := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 1, RawData: []byte("c")}
	if sym.Choose("swap", 2) == 1 {
		fwd, rev = rev, fwd
	}
	checkBinary(fwd, rev)
}

// C09_kinds binary files of every kind (changed, new, deleted, renamed,
// copied, changed mode), with forward data, both, or none, and with another
// file behind.
func C09_kinds() {
	f := &gitdiff.File{OldName: "x", NewName: "x", IsBinary: true, OldOIDPrefix: hex("old", 1), NewOIDPrefix: hex("new", 1)}
	switch sym.Choose("kind", 6) {
	case 1:
		f.IsNew, f.OldName, f.NewMode = true, "", mode("mode")
	case 2:
		f.IsDelete, f.NewName, f.OldMode = true, "", mode("mode")
	case 3:
		f.IsRename, f.NewName, f.Score = true, "y", 75
	case 4:
		f.IsCopy, f.NewName, f.Score = true, "y", 5
	case 5:
		f.OldMode, f.NewMode = mode("mode"), mode("newmode")
	}
	switch sym.Choose("data", 4) {
	case 1:
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 3, RawData: sym.Bytes("data", 3)}
	case 2, 3:
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: 3, RawData: sym.Bytes("data", 5)}
		f.ReverseBinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, RawData: sym.Bytes("rdata", 2)}
	}
	files := []*gitdiff.File{f}
	if sym.Choose("more", 2) == 1 {
		files = append(files, &gitdiff.File{OldName: "z", NewName: "z", IsBinary: true}, &gitdiff.File{OldName: "w", NewName: "w", OldMode: 0o100644, NewMode: 0o100755})
	}
	checkRoundTrip(files...)
}

// C09_damaged a whole binary patch with one byte anywhere missing, replaced or preceded by
// an arbitrary one, or cut: a file parsed from it, if Git's format can represent it.
func C09_damaged() {
	files, _, _ := gitdiff.Parse(strings.NewReader(damaged(wholePatches[4+sym.Choose("patch", 2)])))
	for _, f := range files {
		g := *f
		g.IsBinary = false
		if f.IsBinary && gitFile(&g) {
			sym.Reach("binary file")
			checkRoundTrip(f)
		}
	}
}
