package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// step is a line of an edit script: kept (' '), deleted or added, with its text
// including the newline, if it has one.
type step struct {
	op   byte
	text string
}

// sides are the two texts an edit script stands for.
func sides(script []step) (old, new string) {
	for _, s := range script {
		if s.op != '+' {
			old += s.text
		}
		if s.op != '-' {
			new += s.text
		}
	}
	return
}

// reversed is the script of the way back.
func reversed(script []step) []step {
	var r []step
	for _, s := range script {
		if s.op == '-' {
			s.op = '+'
		} else if s.op == '+' {
			s.op = '-'
		}
		r = append(r, s)
	}
	return r
}

func rangeText(start, n int, short bool) string {
	if n == 1 && short {
		return itoa(start)
	}
	return itoa(start) + "," + itoa(n)
}

// hunks writes an edit script as Git and diff do, with u lines of context. Without
// context, what is added or deleted at the top gets the position 0, which strict
// application reserves for files that are created or deleted: such scripts are
// left out.
func hunks(script []step, u int, short bool) string {
	show := make([]bool, len(script))
	for i, s := range script {
		if s.op == ' ' {
			continue
		}
		for j := i - u; j <= i+u; j++ {
			if j >= 0 && j < len(script) {
				show[j] = true
			}
		}
	}
	// with u lines of context on each side, neighbours at a distance of up to
	// 2u lines meet without a gap
	text := ""
	old, new := sides(script)
	o, n := 0, 0
	for i := 0; i < len(script); {
		if !show[i] {
			o++
			n++
			i++
			continue
		}
		j, do, dn, body := i, 0, 0, ""
		for ; j < len(script) && show[j]; j++ {
			s := script[j]
			if s.op != '+' {
				do++
			}
			if s.op != '-' {
				dn++
			}
			body += string([]byte{s.op}) + s.text
			if s.text[len(s.text)-1] != '\n' {
				body += "\n\\ No newline at end of file\n"
			}
		}
		os, ns := o, n
		if do > 0 {
			os++
		}
		if dn > 0 {
			ns++
		}
		sym.Assume(os > 0 || old == "")
		sym.Assume(ns > 0 || new == "")
		text += "@@ -" + rangeText(os, do, short) + " +" + rangeText(ns, dn, short) + " @@\n" + body
		o, n, i = o+do, n+dn, j
	}
	return text
}

// symScript is a script of n lines of one byte each, arbitrary but for newlines
// (each line its own), with either text possibly without a final newline.
func symScript(name string, n int) []step {
	var script []step
	lastOld, lastNew, changes := -1, -1, 0
	for i := 0; i < n; i++ {
		c := sym.Byte(name + itoa(i))
		sym.Assume(c != '\n')
		s := step{" -+"[sym.Choose(name+"op"+itoa(i), 3)], string([]byte{c}) + "\n"}
		if s.op != '+' {
			lastOld = i
		}
		if s.op != '-' {
			lastNew = i
		}
		if s.op != ' ' {
			changes++
		}
		script = append(script, s)
	}
	sym.Assume(changes > 0)
	cut := func(i int) { script[i].text = script[i].text[:1] }
	switch sym.Choose(name+"eol", 4) {
	case 1:
		sym.Assume(lastOld >= 0 && script[lastOld].op == '-')
		cut(lastOld)
	case 2:
		sym.Assume(lastNew >= 0 && script[lastNew].op == '+')
		cut(lastNew)
	case 3:
		sym.Assume(lastOld >= 0 && lastNew >= 0 && (lastOld == lastNew || script[lastOld].op == '-' && script[lastNew].op == '+'))
		cut(lastOld)
		if lastNew != lastOld {
			cut(lastNew)
		}
	}
	return script
}

// patchOf is the file diff around the hunks: from Git or from diff, of the kind
// that fits the texts.
func patchOf(kind int, old, new, hunks string) string {
	switch kind {
	case 0: // git diff
		switch {
		case old == "":
			return "diff --git a/f b/f\nnew file mode 100644\nindex 0000000..1234567\n--- /dev/null\n+++ b/f\n" + hunks
		case new == "":
			return "diff --git a/f b/f\ndeleted file mode 100644\nindex 1234567..0000000\n--- a/f\n+++ /dev/null\n" + hunks
		}
		return "diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n" + hunks
	case 1: // a file that is empty on one side but exists
		return "diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n" + hunks
	case 2: // git diff -M
		return "diff --git a/e b/f\nsimilarity index 60%\nrename from e\nrename to f\nindex 1234567..89abcde 100755\n--- a/e\n+++ b/f\n" + hunks
	case 3: // diff -u
		return "--- f.orig\t2020-02-02 10:00:00.000000000 +0100\n+++ f\t2020-02-02 11:00:00.000000000 +0100\n" + hunks
	default: // diff -uN
		o, n := "2020-02-02 10:00:00.000000000 +0100", "2020-02-02 11:00:00.000000000 +0100"
		if old == "" {
			o = "1970-01-01 01:00:00.000000000 +0100"
		} else if new == "" {
			n = "1970-01-01 01:00:00.000000000 +0100"
		}
		return "diff -uN a/f b/f\n--- a/f\t" + o + "\n+++ b/f\t" + n + "\n" + hunks
	}
}

// assertTurns applies a patch and the patch it becomes when formatted.
func assertTurns(patch, old, new string) {
	files, _, err := gitdiff.Parse(strings.NewReader(patch))
	sym.Assert(err == nil && len(files) == 1, "a patch as Git or diff writes it is rejected")
	var dst sink
	err = gitdiff.Apply(&dst, &memAt{[]byte(old)}, files[0])
	sym.Assert(err == nil, "a patch is not applied to the content it was made from")
	sym.Assert(sym.EqBytes(dst.b, []byte(new)), "a patch does not give the content it was made for")
	again, _, err := gitdiff.Parse(strings.NewReader(files[0].String()))
	sym.Assert(err == nil && len(again) == 1, "a formatted patch is rejected")
	var dst2 sink
	err = gitdiff.Apply(&dst2, &memAt{[]byte(old)}, again[0])
	sym.Assert(err == nil && sym.EqBytes(dst2.b, []byte(new)), "a formatted patch gives another content")
}

// C26_text any edit script of 1..4 (5) lines of one arbitrary byte, final newlines
// missing on either side, with 0, 1 or 3 lines of context, short or long ranges, as
// five kinds of git and diff output, forwards and backwards.
func C26_text() {
	script := symScript("l", 1+sym.Choose("n", pick(4, 5)))
	if sym.Bool("back") {
		script = reversed(script)
	}
	u := []int{0, 1, 3}[sym.Choose("u", 3)]
	old, new := sides(script)
	h := hunks(script, u, sym.Bool("short"))
	kind := sym.Choose("kind", 5)
	assertTurns(patchOf(kind, old, new, h), old, new)
}

// C26_long an edit script of 40 or 300 (1200) lines with changes at two or three chosen
// places (one line deleted, added or replaced by an arbitrary byte), 0..3 lines of
// context, the final newline missing or not.
func C26_long() {
	n := []int{40, pick(300, 1200)}[sym.Choose("n", 2)]
	places := []int{0, 3, 9, n / 2, n - 5, n - 2, n - 1}
	a := sym.Choose("a", len(places)-1)
	b := a + 1 + sym.Choose("b", len(places)-1-a)
	var script []step
	for i := 0; i < n; i++ {
		if i != places[a] && i != places[b] {
			script = append(script, step{' ', itoa(i) + "\n"})
			continue
		}
		c := sym.Byte("c")
		sym.Assume(c != '\n')
		ops := []string{"-", "+", "-+", "++"}[sym.Choose("ops", 4)]
		for _, op := range []byte(ops) {
			script = append(script, step{op, string([]byte{c}) + "\n"})
		}
		if ops == "+" || ops == "++" {
			script = append(script, step{' ', itoa(i) + "\n"})
		}
	}
	if last := &script[len(script)-1]; sym.Bool("eol") && last.op == ' ' {
		last.text = strings.TrimSuffix(last.text, "\n")
	}
	old, new := sides(script)
	assertTurns(patchOf(3*sym.Choose("kind", 2), old, new, hunks(script, []int{0, 3}[sym.Choose("u", 2)], true)), old, new)
}

// C26_binary contents of 0..2 (3) and 0..3 (4) arbitrary bytes as a binary patch: a
// literal or a delta (a copy of a part of the old content, then an insert), with the
// reverse fragment, which leads back, or without.
func C26_binary() {
	old := sym.Bytes("old", sym.Choose("olen", pick(3, 4)))
	ins := sym.Bytes("ins", sym.Choose("ilen", pick(4, 5)))
	var new []byte
	var fwd *gitdiff.BinaryFragment
	if sym.Bool("delta") {
		sym.Assume(len(old) > 0 && len(ins) > 0)
		off := sym.Choose("off", len(old))
		n := 1 + sym.Choose("cnt", len(old)-off)
		new = append(append(new, old[off:off+n]...), ins...)
		d := []byte{byte(len(old)), byte(len(new)), 0x91, byte(off), byte(n), byte(len(ins))}
		if off == 0 {
			d = []byte{byte(len(old)), byte(len(new)), 0x90, byte(n), byte(len(ins))}
		}
		fwd = deltaFrag(append(d, ins...))
	} else {
		new = ins
		fwd = literalFrag(new)
	}
	rev := literalFrag(old)
	patch := "diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n" + gitBinary(fwd)
	both := sym.Bool("both")
	if both {
		patch += gitBinary(rev)
	}
	assertTurns(patch, string(old), string(new))
	if both {
		files, _, _ := gitdiff.Parse(strings.NewReader(patch))
		f := files[0]
		f.BinaryFragment, f.ReverseBinaryFragment = f.ReverseBinaryFragment, f.BinaryFragment
		assertTurns(f.String(), string(new), string(old))
	}
}

// C26_series two patches of one file, one after the other in one text (as in a mail
// series, with a header between them), take the first content to the third: scripts
// of 2 and 2..3 lines of one arbitrary byte.
func C26_series() {
	s1 := symScript("a", 2)
	old, mid := sides(s1)
	// the second script starts from what the first one gives
	var s2 []step
	for i, l := range splitText(mid) {
		s2 = append(s2, step{" -"[sym.Choose("keep"+itoa(i), 2)], l})
	}
	c := sym.Byte("new")
	sym.Assume(c != '\n')
	add := step{'+', string([]byte{c}) + "\n"}
	at := sym.Choose("at", len(s2)+1)
	for i := 0; i < at; i++ {
		l := s2[i].text
		sym.Assume(l[len(l)-1] == '\n')
	}
	s2 = append(s2[:at:at], append([]step{add}, s2[at:]...)...)
	_, new := sides(s2)
	mail := "-- \n2.30.2\n\nFrom 1234567 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: [PATCH 2/2] x\n\n---\n f | 2 +-\n 1 file changed\n\n"
	text := "From: A <a@b>\nSubject: x\n\n---\n" + patchOf(1, old, mid, hunks(s1, 3, true)) + mail + patchOf(1, mid, new, hunks(s2, 1, true)) + "-- \n2.30.2\n"
	files, pre, err := gitdiff.Parse(strings.NewReader(text))
	sym.Assert(err == nil && len(files) == 2, "a series of patches is not two files")
	sym.Assert(pre == "From: A <a@b>\nSubject: x\n\n---\n", "wrong preamble")
	cur := []byte(old)
	for _, f := range files {
		var dst sink
		sym.Assert(gitdiff.Apply(&dst, &memAt{cur}, f) == nil, "a patch of a series is not applied")
		cur = dst.b
	}
	sym.Assert(sym.EqBytes(cur, []byte(new)), "a series of patches gives another content")
}

// C26_lines an edit script of 1..2 (3) lines of 0..3 (4) arbitrary bytes with one line
// of context, as a Git patch followed by nothing, another file diff or text.
func C26_lines() {
	var script []step
	changed := false
	for i, n := 0, 1+sym.Choose("n", pick(2, 3)); i < n; i++ {
		text := sym.Bytes("l"+itoa(i), sym.Choose("len"+itoa(i), pick(4, 5)))
		for _, c := range text {
			sym.Assume(c != '\n')
		}
		s := step{" -+"[sym.Choose("op"+itoa(i), 3)], string(text) + "\n"}
		changed = changed || s.op != ' '
		script = append(script, s)
	}
	sym.Assume(changed)
	old, new := sides(script)
	patch := patchOf(0, old, new, hunks(script, 1, true))
	assertTurns(patch, old, new)
	files, _, err := gitdiff.Parse(strings.NewReader(patch + []string{"diff --git a/g b/g\nold mode 100644\nnew mode 100755\n", "-- \n2.30.2\n\n"}[sym.Choose("more", 2)]))
	sym.Assert(err == nil && len(files) > 0, "a patch with more behind it is rejected")
	var dst sink
	err = gitdiff.Apply(&dst, &memAt{[]byte(old)}, files[0])
	sym.Assert(err == nil && sym.EqBytes(dst.b, []byte(new)), "a patch with more behind it gives another content")
}

// C26_long_binary contents of every length from 0 to 160 (420) with an arbitrary byte,
// as a binary literal.
func C26_long_binary() {
	n := sym.Choose("n", pick(161, 421))
	data := varied(n)
	if n > 0 {
		data[n/2] = sym.Byte("b")
	}
	assertTurns("diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n"+gitBinary(literalFrag(data)), "", string(data))
}
