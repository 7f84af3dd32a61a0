// Package props holds the harnesses: each function named Cnn_xxx states a part
// of property Cnn over symbolic inputs, against an oracle written here from
// the property's text and Git's documentation, not from the code under test.
package props

import (
	"errors"
	"io"
	"os"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// memAt is a plain io.ReaderAt over bytes with the semantics of bytes.Reader.
type memAt struct{ b []byte }

func (m *memAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// sink collects what is written.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

func isConflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

// withAnyKind gives f any flags, modes, score, object ids and names, none of which
// matters to Apply.
func withAnyKind(f *gitdiff.File) *gitdiff.File {
	f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = sym.Bool("f.new"), sym.Bool("f.delete"), sym.Bool("f.copy"), sym.Bool("f.rename")
	f.OldMode, f.NewMode = os.FileMode(sym.Int("f.oldmode", 0, 1<<20-1)), os.FileMode(sym.Int("f.newmode", 0, 1<<20-1))
	f.Score = sym.Int("f.score", 0, 100)
	f.OldOIDPrefix, f.NewOIDPrefix = sym.String("f.oldoid", 1), sym.String("f.newoid", 1)
	f.OldName, f.NewName = sym.String("f.oldname", 1), sym.String("f.newname", 1)
	return f
}

// splitLines cuts b after every newline.
func splitLines(b []byte) [][]byte {
	var lines [][]byte
	start := 0
	for i, c := range b {
		if c == '\n' {
			lines = append(lines, b[start:i+1])
			start = i + 1
		}
	}
	if start < len(b) {
		lines = append(lines, b[start:])
	}
	return lines
}

// fill computes the counters of a fragment from its lines.
func fill(f *gitdiff.TextFragment) *gitdiff.TextFragment {
	f.OldLines, f.NewLines, f.LinesAdded, f.LinesDeleted, f.LeadingContext, f.TrailingContext = 0, 0, 0, 0, 0, 0
	for _, l := range f.Lines {
		switch l.Op {
		case gitdiff.OpContext:
			f.OldLines++
			f.NewLines++
			if f.LinesAdded+f.LinesDeleted == 0 {
				f.LeadingContext++
			} else {
				f.TrailingContext++
			}
		case gitdiff.OpDelete:
			f.OldLines++
			f.LinesDeleted++
			f.TrailingContext = 0
		case gitdiff.OpAdd:
			f.NewLines++
			f.LinesAdded++
			f.TrailingContext = 0
		}
	}
	return f
}

// refStart is the zero-based line at which a fragment starts.
func refStart(f *gitdiff.TextFragment) int64 {
	if f.OldLines == 0 {
		return f.OldPosition // insert after the stated line
	}
	return f.OldPosition - 1
}

// refApply is the meaning of applying consistent fragments, in the order
// given, to src.
func refApply(src []byte, frags []*gitdiff.TextFragment) (out []byte, ok bool) {
	lines := splitLines(src)
	next := int64(0)
	for _, f := range frags {
		start := refStart(f)
		if start < next {
			return nil, false
		}
		if f.OldPosition == 0 && len(src) > 0 {
			return nil, false
		}
		if start+f.OldLines > int64(len(lines)) {
			return nil, false
		}
		for ; next < start; next++ {
			out = append(out, lines[next]...)
		}
		for _, l := range f.Lines {
			if l.Op != gitdiff.OpAdd {
				if string(lines[next]) != l.Line {
					return nil, false
				}
				next++
			}
			if l.Op != gitdiff.OpDelete {
				out = append(out, l.Line...)
			}
		}
		if f.NewPosition == 0 && f.NewLines == 0 && next < int64(len(lines)) {
			return nil, false
		}
	}
	for ; next < int64(len(lines)); next++ {
		out = append(out, lines[next]...)
	}
	return out, true
}

// ops is the number of line structures enumerated by symOps.
var opOf = []gitdiff.LineOp{gitdiff.OpContext, gitdiff.OpDelete, gitdiff.OpAdd}

// symLine is a fragment line: a chosen operation and an arbitrary content of
// lo to hi bytes.
func symLine(name string, lo, hi int) gitdiff.Line {
	op := opOf[sym.Choose(name+".op", 3)]
	n := lo + sym.Choose(name+".len", hi-lo+1)
	return gitdiff.Line{Op: op, Line: sym.String(name, n)}
}

// repeat is n copies of s.
func repeat(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

// letters is n varied letters, so that a part of them is like no other.
func letters(n int) string {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = 'a' + byte(x>>24)%26
	}
	return string(b)
}

// varied is n varied bytes of any value.
func varied(n int) []byte {
	b := make([]byte, n)
	x := uint32(7)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// hundreds is n bytes of varied letters with every hundredth a newline.
func hundreds(n int) []byte {
	b := []byte(letters(n))
	for i := 99; i < n; i += 100 {
		b[i] = '\n'
	}
	return b
}

// numbered is n lines that begin with s and differ in a number.
func numbered(s string, n int) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, s...)
		b = append(b, itoa(i)...)
		b = append(b, '\n')
	}
	return string(b)
}

// numbered2 is n times the line a with a number after the line b with one.
func numbered2(a, b string, from, to int) string {
	var t []byte
	for i := from; i < to; i++ {
		t = append(t, a+itoa(i)+"\n"+b+itoa(i)+"\n"...)
	}
	return string(t)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// pick is an integer bound that depends on the tier.
func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}
