package props

import (
	"strings"
	"unicode"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// refSubject splits a trimmed subject into what the mode removes and the rest.
func refSubject(s string, mode gitdiff.SubjectCleanMode) (prefix, title string) {
	if mode == gitdiff.SubjectCleanWhitespace {
		return "", s
	}
	rest := s
	for rest != "" {
		c := rest[0]
		if c == ' ' || c == '\t' || c == ':' {
			rest = rest[1:]
			continue
		}
		if len(rest) >= 3 && (c == 'r' || c == 'R') && (rest[1] == 'e' || rest[1] == 'E') && rest[2] == ':' {
			rest = rest[3:]
			continue
		}
		if c == '[' {
			end := -1
			for i := 0; i < len(rest) && end < 0; i++ {
				if rest[i] == ']' {
					end = i
				}
			}
			if end > 0 && (mode == gitdiff.SubjectCleanAll || strings.Contains(rest[:end], "PATCH")) {
				rest = rest[end+1:]
				continue
			}
		}
		break
	}
	return s[:len(s)-len(rest)], rest
}

// printable asserts that s may be part of a mail header line.
func printable(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= 0x20 && s[i] != 0x7f || s[i] == '\t')
	}
}

func mailHeader(subject, body string, opts ...gitdiff.PatchHeaderOption) (*gitdiff.PatchHeader, error) {
	return gitdiff.ParsePatchHeader("From 61f5cd90 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: "+subject+"\n\n"+body, opts...)
}

func checkSubject(s string) {
	printable(s)
	mode := gitdiff.SubjectCleanMode(sym.Choose("mode", 4))
	var opts []gitdiff.PatchHeaderOption
	if mode == 3 {
		mode = gitdiff.SubjectCleanAll // the default
	} else {
		opts = append(opts, gitdiff.WithSubjectCleanMode(mode))
	}
	h, err := mailHeader(s, "body\n", opts...)
	sym.Assert(err == nil, "a mail header is rejected")
	if err != nil {
		return
	}
	trim := strings.TrimSpace(s)
	if strings.TrimSpace(strings.Trim(s, " \t")) != strings.Trim(s, " \t") {
		return // other white space around the subject
	}
	prefix, title := refSubject(trim, mode)
	sym.Assert(h.Title == title, "wrong title")
	sym.Assert(strings.TrimSpace(h.SubjectPrefix) == strings.TrimSpace(prefix), "wrong subject prefix")
	sym.Assert(strings.TrimSpace(h.SubjectPrefix+h.Title) == trim, "the subject is not prefix and title")
	sym.Assert(h.SHA == "61f5cd90" && h.Author != nil && h.Author.Name == "A" && h.Body == "body" && h.BodyAppendix == "", "the subject changes another field")
	sym.Assert(h.AuthorDate.Unix() == 1586643683 && h.CommitterDate.IsZero() && h.Committer == nil, "wrong dates")
	want := title
	sym.Assert(h.Message() == want+"\n\nbody", "wrong message")
}

// C22_subject subjects of 0..4 (6) arbitrary bytes, all clean modes.
func C22_subject() { checkSubject(sym.String("s", sym.Choose("len", pick(5, 7)))) }

// C22_prefixes 0..2 (3) arbitrary bytes anywhere in seven subjects.
func C22_prefixes() {
	s := []string{"[PATCH v3 5/17] Re: x", "Re: [a] [RFC PATCH] re:x", ":[a]] x", "RE : [PATCH", "[x][PATCH]y ]", "re re: x", "[[PATCH]] [b x"}[sym.Choose("form", 7)]
	i := sym.Choose("i", 25)
	if i > len(s) {
		return
	}
	checkSubject(s[:i] + sym.String("x", sym.Choose("len", pick(3, 4))) + s[i:])
}

// qEncode is Git's encoding of a title.
func qEncode(s string) string {
	out := "=?UTF-8?q?"
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '/' {
			out += string([]byte{c})
		} else {
			h, l := c>>4, c&15
			hd, ld := '0'+h, '0'+l
			if h > 9 {
				hd = 'A' + h - 10
			}
			if l > 9 {
				ld = 'A' + l - 10
			}
			out += "=" + string([]byte{hd, ld})
		}
	}
	return out + "?="
}

// C22_encoded titles of 1..3 (5) arbitrary bytes that start and end with other
// than white space, encoded by Git in any number of words, after a prefix or not (in quick, 3 bytes only after one
// prefix).
func C22_encoded() {
	t := sym.String("t", 1+sym.Choose("len", pick(3, 5)))
	sym.Assume(strings.TrimSpace(t) == t)
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '\n' && t[i] != '\r')
	}
	enc, last := "", 0
	for i := 1; i < len(t); i++ { // any way to cut it
		if sym.Choose("cut"+itoa(i), 2) == 1 {
			enc += qEncode(t[last:i]) + "\n "
			last = i
		}
	}
	enc += qEncode(t[last:])
	prefix := "[PATCH] "
	if len(t) < pick(3, 6) {
		prefix = []string{"", "[PATCH] ", "[PATCH 1/2] Re: "}[sym.Choose("prefix", 3)]
	}
	mode := gitdiff.SubjectCleanMode(1 + sym.Choose("mode", pick(1, 2)))
	if prefix == "" {
		mode = gitdiff.SubjectCleanMode(sym.Choose("anymode", 3))
	}
	h, err := mailHeader(prefix+enc, "", gitdiff.WithSubjectCleanMode(mode))
	sym.Assert(err == nil, "a mail header is rejected")
	if err == nil {
		sym.Assert(h.Title == t, "an encoded title is not decoded")
		sym.Assert(h.SubjectPrefix == prefix, "wrong subject prefix")
	}
}

// checkMailBody asserts the split of a body into body and appendix.
func checkMailBody(text string) {
	h, err := mailHeader("[PATCH] S", text)
	sym.Assert(err == nil, "a mail header is rejected")
	if err != nil {
		return
	}
	// the header ends where its white space starts
	lines := strings.Split(strings.TrimRightFunc("x\n"+text, unicode.IsSpace), "\n")[1:]
	split := len(lines)
	for i, l := range lines {
		if strings.TrimRightFunc(l, unicode.IsSpace) == "---" {
			split = i
			break
		}
	}
	appendix := ""
	if split < len(lines) {
		appendix = refBody(lines[split+1:], "")
	}
	sym.Assert(h.Body == refBody(lines[:split], ""), "wrong body")
	sym.Assert(h.BodyAppendix == appendix, "wrong appendix")
	sym.Assert(h.Title == "S" && h.SubjectPrefix == "[PATCH] ", "the body changes the subject")
}

// C22_body bodies of 0..4 (7) arbitrary bytes.
func C22_body() { checkMailBody(sym.String("b", sym.Choose("len", pick(5, 8)))) }

// C22_appendix 0..2 (3) arbitrary bytes anywhere in four bodies.
func C22_appendix() {
	s := []string{"b\n---\na\n---\nc\n", "---\n\n a\n", "b\n\n---\n\n\n x\n ---\n", "---a\n --- b\n----\n---"}[sym.Choose("form", 4)]
	i := sym.Choose("i", 21)
	if i > len(s) {
		return
	}
	checkMailBody(s[:i] + sym.String("x", sym.Choose("len", pick(3, 4))) + s[i:])
}

// C22_lines bodies of four (five) lines out of eight kinds, two of them with an
// arbitrary byte.
func C22_lines() {
	c := sym.String("c", 1)
	text := ""
	for i, n := 0, pick(3, 4); i < n; i++ {
		text += []string{"", "---", "--- ", "a" + c, " b", "-- ", "----", c}[sym.Choose("line"+itoa(i), 8)] + "\n"
	}
	checkMailBody(text)
}

// C22_fields the From line with an id of 0..3 arbitrary bytes, From and Date
// fields of 0..3 arbitrary bytes or at the end of good ones, fields in any
// order, with and without the From line.
func C22_fields() {
	id := sym.String("id", sym.Choose("idlen", pick(3, 4)))
	for i := 0; i < len(id); i++ {
		sym.Assume(id[i] > ' ' && id[i] < 0x7f)
	}
	v := sym.String("v", sym.Choose("len", 3))
	printable(v)
	if strings.TrimSpace(v) != strings.Trim(v, " \t") {
		return
	}
	from, date := "A <a@b>", "1586643683"
	which := sym.Choose("which", 4)
	switch which {
	case 0:
		from = v
	case 1:
		from += v
	case 2:
		date = v
	case 3:
		date = "2020-04-11 15:21:2" + v
	}
	fields := []string{"From: " + from + "\n", "Date: " + date + "\n", "Subject: S\n", "X-Other: y\n"}
	text := ""
	for _, k := range [][]int{{0, 1, 2, 3}, {2, 3, 0, 1}, {1, 0, 3, 2}}[sym.Choose("order", 3)] {
		text += fields[k]
	}
	has := true
	switch sym.Choose("first", 3) {
	case 0:
		text = "From " + id + " Mon Sep 17 00:00:00 2001\n" + text
	case 1:
		if !strings.HasPrefix(text, "From:") {
			return
		}
		has = false
	case 2:
		text = "From " + id + " x\n" + text
	}
	h, err := gitdiff.ParsePatchHeader(text + "\nb\n")
	from, date = strings.TrimSpace(from), strings.TrimSpace(date)
	want, ierr := gitdiff.ParsePatchIdentity(from)
	at, derr := gitdiff.ParsePatchDate(date)
	if from == "" {
		ierr = nil
	}
	sym.Assert((err == nil) == (ierr == nil && derr == nil), "an identity or date error is lost or invented")
	if err != nil {
		return
	}
	if from == "" {
		sym.Assert(h.Author == nil, "an author is invented")
	} else {
		sym.Assert(h.Author != nil && *h.Author == want, "wrong author")
	}
	sym.Assert(h.AuthorDate.Equal(at), "wrong author date")
	if has {
		sym.Assert(h.SHA == id, "wrong commit id")
	} else {
		sym.Assert(h.SHA == "", "a commit id is invented")
	}
	sym.Assert(h.Title == "S" && h.Body == "b" && h.SubjectPrefix == "" && h.BodyAppendix == "" && h.Committer == nil && h.CommitterDate.IsZero(), "wrong other fields")
}
