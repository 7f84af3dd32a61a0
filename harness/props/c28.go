package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

// commit is what git shows and mails.
type commit struct {
	id, name, email, title string
	paras                  [][]string // lines of the paragraphs of the body
	off                    int        // seconds after 2020-04-11 15:21:20 -0700
}

func (c *commit) body() string {
	var ps []string
	for _, p := range c.paras {
		var lines []string
		for _, l := range p {
			lines = append(lines, strings.TrimRight(l, " "))
		}
		ps = append(ps, strings.Join(lines, "\n"))
	}
	return strings.Join(ps, "\n\n")
}

// word is "w" and an arbitrary visible ASCII byte.
func word(name string) string {
	b := sym.Byte(name)
	sym.Assume(sym.And(b > ' ', b < 0x7f))
	return "w" + string([]byte{b})
}

// symCommit has an arbitrary byte in every part and 0..2 (3) paragraphs of one or two
// lines, some of which look like parts of a patch.
func symCommit(looks []string) *commit {
	c := &commit{id: "1234567890123456789012345678901234567890", name: "A B", email: "a@b.c", title: "Title " + word("title")}
	n := sym.Byte("name")
	sym.Assume(sym.Or(sym.And(n >= 'a', n <= 'z'), sym.And(n >= 0x80, n < 0xff)))
	sym.Assume(n < 0x80)
	c.name += string([]byte{n})
	e := sym.Byte("email")
	sym.Assume(sym.Or(sym.And(e >= 'a', e <= 'z'), sym.And(e >= '0', e <= '9')))
	c.email += string([]byte{e})
	for i, n := 0, sym.Choose("paragraphs", pick(3, 4)); i < n; i++ {
		var p []string
		for j, m := 0, 1+sym.Choose("lines"+itoa(i), 2); j < m; j++ {
			l := sym.Choose("line", len(looks)+1)
			if l == 0 {
				p = append(p, word("l"))
			} else {
				p = append(p, looks[l-1])
			}
		}
		c.paras = append(c.paras, p)
	}
	return c
}

func indented(s string) string {
	out := ""
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			l = "    " + l
		}
		out += l + "\n"
	}
	return out
}

// assertCommit parses text and its preamble, which is all before the first
// "diff --git" at the given place.
func assertCommit(text string, at, files int, c *commit, pretty, full bool) *gitdiff.PatchHeader {
	fs, pre, err := gitdiff.Parse(strings.NewReader(text))
	sym.Assert(err == nil, "a commit with its patch is rejected")
	sym.Assert(len(fs) == files, "a commit has another number of files")
	sym.Assert(pre == text[:at], "the preamble is not what precedes the first file")
	h, err := gitdiff.ParsePatchHeader(pre)
	sym.Assert(err == nil && h != nil, "the header of a commit is rejected")
	sym.Assert(h.SHA == c.id, "wrong id")
	sym.Assert(h.Author != nil && h.Author.Name == c.name && h.Author.Email == c.email, "wrong author")
	sym.Assert(h.AuthorDate.Unix() == int64(1586643680+c.off), "wrong author date")
	sym.Assert(h.Title == c.title, "wrong title")
	sym.Assert(h.Body == c.body(), "wrong body")
	if full {
		sym.Assert(h.Committer != nil && h.Committer.Name == "C" && h.Committer.Email == "c@d", "wrong committer")
		sym.Assert(h.CommitterDate.Unix() == 1586643700, "wrong committer date")
	} else {
		sym.Assert(h.Committer == nil && h.CommitterDate.IsZero(), "a committer is invented")
	}
	msg := c.title
	if len(c.paras) > 0 {
		msg += "\n\n" + c.body()
	}
	if pretty {
		sym.Assert(h.SubjectPrefix == "" && h.BodyAppendix == "", "mail parts are invented")
		sym.Assert(h.Message() == msg, "wrong message")
	}
	return h
}

var commitDiffs = []string{
	"diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git a/f b/f\nold mode 100644\nnew mode 100755\ndiff --git a/g b/g\nnew file mode 100644\nindex 0000000..e69de29\n",
	"diff --git a/f b/f\nindex 1234567..89abcde 100644\nBinary files a/f and b/f differ\n",
}

// C28_show a commit with a message of a title and 0..2 (3) paragraphs of 1 or 2 lines
// (with an arbitrary byte, or like parts of a patch) as git show and git log -p print
// it: medium, full or fuller, decorated or a merge or not, three date formats, with one
// of three diffs, possibly followed by the next commit of the log.
func C28_show() {
	c := symCommit([]string{"diff --git a/x b/x", "@@ -1 +1 @@", "---", "--- a/x", "+++ b/x", "Author: Z <z@z>"}[:pick(3, 6)])
	text := "commit " + c.id
	kind := sym.Choose("pretty", 3)
	if kind > 0 {
		text += " (HEAD -> main, tag: v1)"
	}
	text += "\n"
	c.title = []string{"Title", "Revert \"Title\"", "Merge branch 'x'"}[kind] + c.title
	date := sym.Choose("date", 3)
	c.off = 17 * date
	when := "Sat Apr 11 15:21:" + two(20+c.off) + " 2020 -0700"
	switch date {
	case 1:
		when = "2020-04-11 15:21:" + two(20+c.off) + " -0700"
	case 2:
		when = "2020-04-11T15:21:" + two(20+c.off) + "-07:00"
	}
	switch kind {
	case 0:
		text += "Author: " + c.name + " <" + c.email + ">\nDate:   " + when + "\n"
	case 1:
		text += "Author:     " + c.name + " <" + c.email + ">\nAuthorDate: " + when + "\nCommit:     C <c@d>\nCommitDate: Sat Apr 11 15:21:40 2020 -0700\n"
	case 2:
		text += "Merge: 1234567 89abcde\nAuthor: " + c.name + " <" + c.email + ">\nDate:   " + when + "\n"
	}
	text += "\n" + indented(c.title)
	if len(c.paras) > 0 {
		text += "\n" + indented(c.body())
	}
	text += "\n"
	at := len(text)
	d := sym.Choose("diff", len(commitDiffs))
	text += commitDiffs[d]
	files := []int{1, 2, 1}[d]
	if sym.Bool("next") {
		text += "\ncommit 9999999999999999999999999999999999999999\nAuthor: X <x@x>\nDate:   Sun Apr 12 10:00:00 2020 +0200\n\n    Other\n\n" + commitDiffs[0]
		files++
	}
	assertCommit(text, at, files, c, true, kind == 1)
}

// C28_mail the same commit as git format-patch mails it: one of a series or not, with or
// without a statistic, a signature and more headers; with lines in the body that look like
// parts of a patch but are none.
func C28_mail() {
	c := symCommit([]string{"--- a/x", "-- ", "+++ b/x", "GIT binary patch", "commit 1", "index 1..2 100644"}[:pick(4, 6)])
	c.off = 19
	prefix := []string{"[PATCH] ", "[PATCH 2/3] ", "[PATCH v2 1/1] "}[sym.Choose("prefix", 3)]
	text := "From " + c.id + " Mon Sep 17 00:00:00 2001\nFrom: " + c.name + " <" + c.email + ">\nDate: Sat, 11 Apr 2020 15:21:" + two(20+c.off) + " -0700\nSubject: " + prefix + c.title + "\n"
	if sym.Bool("mime") {
		text += "MIME-Version: 1.0\nContent-Type: text/plain; charset=UTF-8\nContent-Transfer-Encoding: 8bit\n"
	}
	text += "\n"
	for i, p := range c.paras {
		if i > 0 {
			text += "\n"
		}
		text += strings.Join(p, "\n") + "\n"
	}
	appendix := ""
	text += "---\n"
	if sym.Bool("stat") {
		appendix = " f | 2 +-\n 1 file changed, 1 insertion(+), 1 deletion(-)"
		text += appendix + "\n"
	}
	text += "\n"
	at := len(text)
	d := sym.Choose("diff", 2)
	text += commitDiffs[d]
	if sym.Bool("signature") {
		text += "-- \n2.30.2\n\n"
	}
	h := assertCommit(text, at, 1+d, c, false, false)
	sym.Assert(h.BodyAppendix == appendix, "wrong appendix")
	sym.Assert(h.SubjectPrefix == prefix, "wrong subject prefix")
	msg := c.title
	if len(c.paras) > 0 {
		msg += "\n\n" + c.body()
	}
	sym.Assert(h.Message() == msg, "wrong message")
}

// C28_long a commit whose body has 100, 1000 or 5000 lines in one paragraph or in many,
// with an arbitrary byte in the first, middle or last, as git show or git
// format-patch writes it.
func C28_long() {
	n := []int{100, 1000, 5000}[sym.Choose("n", 3)]
	c := &commit{id: "1234567890123456789012345678901234567890", name: "A B", email: "a@b.c", title: "Title"}
	at := place("at", n)
	var p []string
	for i := 0; i < n; i++ {
		l := "some words " + itoa(i)
		if i == at {
			l = word("l")
		}
		p = append(p, l)
	}
	if sym.Choose("many", 2) == 1 {
		for i := range p {
			c.paras = append(c.paras, p[i:i+1])
		}
	} else {
		c.paras = [][]string{p}
	}
	if sym.Choose("mail", 2) == 0 {
		text := "commit " + c.id + "\nAuthor: " + c.name + " <" + c.email + ">\nDate:   Sat Apr 11 15:21:20 2020 -0700\n\n    Title\n\n" + indented(c.body()) + "\n"
		assertCommit(text+commitDiffs[0], len(text), 1, c, true, false)
		return
	}
	text := "From " + c.id + " Mon Sep 17 00:00:00 2001\nFrom: " + c.name + " <" + c.email + ">\nDate: Sat, 11 Apr 2020 15:21:20 -0700\nSubject: [PATCH] Title\n\n" + c.body() + "\n---\n f | 2 +-\n\n"
	h := assertCommit(text+commitDiffs[0], len(text), 1, c, false, false)
	sym.Assert(h.SubjectPrefix == "[PATCH] " && h.BodyAppendix == " f | 2 +-", "wrong mail parts")
}
