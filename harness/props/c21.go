package props

import (
	"strings"
	"time"
	"unicode"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// refMessage is the title and body of an indented commit message, which must
// not start with a blank line.
func refMessage(text string) (title, body string) {
	lines := strings.Split(text, "\n")
	var words []string
	i := 0
	for ; i < len(lines) && strings.TrimSpace(lines[i]) != ""; i++ {
		words = append(words, strings.TrimSpace(lines[i]))
	}
	indent := ""
	if len(words) > 0 {
		indent = lines[0][:len(lines[0])-len(strings.TrimLeftFunc(lines[0], unicode.IsSpace))]
	}
	return strings.Join(words, " "), refBody(lines[i:], indent)
}

// refBody removes the indent and trailing space of lines, and collapses runs
// of blank lines.
func refBody(lines []string, indent string) string {
	body, blank := "", false
	for _, l := range lines {
		l = strings.TrimRightFunc(l, unicode.IsSpace)
		l = strings.TrimPrefix(l, indent)
		switch {
		case l == "":
			blank = true
			continue
		case body == "":
			body = l
		case blank:
			body += "\n\n" + l
		default:
			body += "\n" + l
		}
		blank = false
	}
	return body
}

func checkMessage(h *gitdiff.PatchHeader, title, body string) {
	sym.Assert(h.Title == title, "wrong title")
	sym.Assert(h.Body == body, "wrong body")
	want := title
	if body != "" {
		want += "\n\n" + body
	}
	sym.Assert(h.Message() == want, "wrong message")
	sym.Assert(h.SubjectPrefix == "" && h.BodyAppendix == "", "a commit has mail fields")
}

// checkCommit parses a header with the given message after its blank line.
func checkCommit(msg string) {
	msg = strings.TrimRightFunc(msg, unicode.IsSpace)
	if strings.TrimSpace(strings.Split(msg, "\n")[0]) == "" {
		return // a message starts after one blank line
	}
	h, err := gitdiff.ParsePatchHeader("commit 61f5cd90\nAuthor: A <a@b>\n\n" + msg + "\n")
	sym.Assert(err == nil && h != nil, "a header is rejected")
	if err != nil {
		return
	}
	title, body := refMessage(msg)
	checkMessage(h, title, body)
	sym.Assert(h.SHA == "61f5cd90", "wrong commit id")
	sym.Assert(h.Author != nil && h.Author.Name == "A" && h.Author.Email == "a@b", "wrong author")
}

// C21_message 0..4 (6) arbitrary bytes as the message.
func C21_message() {
	checkCommit("    T" + sym.String("m", sym.Choose("len", pick(5, 7))))
}

// C21_lines three (five) lines, each empty, blank, or up to two arbitrary bytes (one
// in quick) behind no, the same, a longer or another indent.
func C21_lines() {
	n := pick(3, 5)
	msg := ""
	which := 1 + sym.Choose("which", n-1)
	for i := 0; i < n; i++ {
		c := "ab"
		if i == which || i == 0 {
			c = sym.String("c"+itoa(i), pick(1, 2))
		}
		switch sym.Choose("kind"+itoa(i), 5) {
		case 0:
			msg += "    " + c + "\n"
		case 1:
			msg += "\n"
		case 2:
			msg += "      " + c + "\n"
		case 3:
			msg += "\t" + c[:1] + " \n"
		case 4:
			msg += c + "\r\n"
		}
	}
	checkCommit(msg)
}

// C21_indent one or two title lines and two body lines, each with one of four
// (five) indents; the first body line is or ends with an arbitrary byte.
func C21_indent() {
	indents := []string{"", "    ", "  ", "\t", "      "}
	in := func(name string) string { return indents[sym.Choose(name, pick(4, 5))] }
	msg := in("t1") + "T\n"
	if k := sym.Choose("t2", pick(5, 6)); k > 0 {
		msg += indents[k-1] + "U\n"
	}
	msg += "\n" + in("b1") + []string{"", "b"}[sym.Choose("b", 2)] + sym.String("c", pick(1, 2)) + "\n" + in("b2") + "d\n"
	checkCommit(msg)
}

var headLines = []string{
	"Author: N One <one@x>", "Author:     \"Two\" <two@x>", "Commit: Three <three@x>", "Commit:    four@x",
	"Date:   Sat Apr 11 15:21:23 2020 -0700", "AuthorDate: 2020-04-11 15:21:23 -0700", "CommitDate: 1586643683",
	"Date:", "CommitDate:   2020-04-11T15:21:23-07:00", "Merge: 1 2", "author: x <y>", " Author: x <y>", "Reviewed-by: r", "Author", "Date",
}

// C21_fields a header of one to three lines from 15 kinds, in any order and
// repeated, with an id of two arbitrary bytes, with or without decoration.
func C21_fields() {
	id := "61" + sym.String("id", 2)
	for i := 2; i < 4; i++ {
		sym.Assume(id[i] != '\n' && id[i] != '\r' && id[i] != ' ')
	}
	text := "commit " + id + []string{"", " (HEAD -> main, tag: v1)"}[sym.Choose("decor", 2)] + "\n"
	var author, committer string
	var authorDate, committerDate int64
	at := time.Date(2020, 4, 11, 22, 21, 23, 0, time.UTC).Unix()
	for i, n := 0, 1+sym.Choose("lines", pick(2, 3)); i < n; i++ {
		k := sym.Choose("line"+itoa(i), len(headLines))
		text += headLines[k] + "\n"
		switch k {
		case 0:
			author = "N One <one@x>"
		case 1:
			author = "Two <two@x>"
		case 2:
			committer = "Three <three@x>"
		case 3:
			committer = "four@x <four@x>"
		case 4, 5:
			authorDate = at
		case 6, 8:
			committerDate = at
		case 7:
			authorDate = 0
		}
	}
	sym.Assume(strings.TrimRightFunc(id, unicode.IsSpace) == id)
	h, err := gitdiff.ParsePatchHeader(text + "\n    T" + id[2:3] + "\n")
	sym.Assert(err == nil, "a header is rejected")
	if err != nil {
		return
	}
	sym.Assert(h.SHA == id, "wrong commit id")
	person := func(i *gitdiff.PatchIdentity) string {
		if i == nil {
			return ""
		}
		return i.String()
	}
	unix := func(t time.Time) int64 {
		if t.IsZero() {
			return 0
		}
		return t.Unix()
	}
	sym.Assert(person(h.Author) == author, "wrong author")
	sym.Assert(person(h.Committer) == committer, "wrong committer")
	sym.Assert(unix(h.AuthorDate) == authorDate, "wrong author date")
	sym.Assert(unix(h.CommitterDate) == committerDate, "wrong committer date")
	checkMessage(h, strings.TrimSpace("T"+id[2:3]), "")
}

// C21_values each of the field lines with 0..3 arbitrary bytes as value or at
// the end of a good one: the field is what the identity and date parsers give,
// and their errors are returned.
func C21_values() {
	k := sym.Choose("field", 5)
	field := []string{"Author:", "Commit:", "Date:", "AuthorDate:", "CommitDate:"}[k]
	val := sym.String("val", sym.Choose("len", 4))
	for i := 0; i < len(val); i++ {
		sym.Assume(val[i] != '\n')
	}
	if sym.Choose("good", 2) == 1 {
		if k < 2 {
			val = " A B <a@b>" + val
		} else {
			val = " 2020-04-11 15:21:2" + val
		}
	}
	h, err := gitdiff.ParsePatchHeader("commit 1\n" + field + val + "\nMerge: x\n\n    T\n")
	line := strings.TrimSuffix(val, "\r") // the end of a line
	if k < 2 {
		id, ierr := gitdiff.ParsePatchIdentity(line)
		sym.Assert((err == nil) == (ierr == nil), "an identity error is lost or invented")
		if err != nil {
			return
		}
		got := h.Author
		if k == 1 {
			got = h.Committer
			sym.Assert(h.Author == nil, "an author is invented")
		} else {
			sym.Assert(h.Committer == nil, "a committer is invented")
		}
		sym.Assert(got != nil && *got == id, "a field is not the identity of its line")
	} else {
		d, derr := gitdiff.ParsePatchDate(strings.TrimSpace(line))
		sym.Assert((err == nil) == (derr == nil), "a date error is lost or invented")
		if err != nil {
			return
		}
		got, other := h.AuthorDate, h.CommitterDate
		if k == 4 {
			got, other = other, got
		}
		sym.Assert(got.Equal(d) && other.IsZero(), "a field is not the date of its line")
	}
	sym.Assert(h.SHA == "1" && h.Title == "T" && h.Body == "", "a field changes the rest of the header")
}

// C21_unknown a header line of 1..5 arbitrary bytes is ignored unless it is a
// known field, and lines after the first blank one are message.
func C21_unknown() {
	l := sym.String("l", 1+sym.Choose("len", pick(5, 6)))
	for i := 0; i < len(l); i++ {
		sym.Assume(l[i] != '\n')
	}
	sym.Assume(strings.TrimSpace(l) != "")
	h, err := gitdiff.ParsePatchHeader("commit 1\n" + l + "\nAuthor: A <a@b>\n\n    T\n    Author: x\n\n    Date: y\n")
	if strings.HasPrefix(l, "Date:") {
		return
	}
	sym.Assert(err == nil, "an unknown line is rejected")
	if err == nil {
		sym.Assert(h.Author != nil && h.Author.Email == "a@b" && h.Committer == nil && h.AuthorDate.IsZero() && h.CommitterDate.IsZero(), "an unknown line sets a field")
		checkMessage(h, "T Author: x", "Date: y")
	}
}

// C21_outside white space of 0..2 arbitrary bytes around a header is ignored,
// an empty header is an empty value, anything else of 1..4 (5) bytes an error.
func C21_outside() {
	ws := sym.String("ws", sym.Choose("wslen", 3))
	for i := 0; i < len(ws); i++ {
		sym.Assume(isBlank(ws[i]))
	}
	if sym.Choose("kind", 2) == 0 {
		h, err := gitdiff.ParsePatchHeader(ws + "commit 12ab\nAuthor: A <a@b>\n\n  T\n" + ws)
		sym.Assert(err == nil && h.SHA == "12ab" && h.Title == "T" && h.Body == "" && h.Author.Name == "A", "white space around a header matters")
		return
	}
	s := sym.String("s", sym.Choose("len", pick(5, 6)))
	h, err := gitdiff.ParsePatchHeader(s)
	if strings.TrimSpace(s) == "" {
		sym.Assert(err == nil && h != nil && *h == gitdiff.PatchHeader{}, "an empty header is not an empty value")
	} else if !strings.HasPrefix(strings.TrimSpace(s), "From") {
		sym.Assert(err != nil && h == nil, "an unknown header format is accepted")
	}
}
