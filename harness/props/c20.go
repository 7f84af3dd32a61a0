package props

import (
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// refWords normalises white space: single spaces between words.
func refWords(s string) string {
	var out []byte
	gap := false
	for i := 0; i < len(s); i++ {
		if isBlank(s[i]) {
			gap = true
			continue
		}
		if gap && len(out) > 0 {
			out = append(out, ' ')
		}
		gap = false
		out = append(out, s[i])
	}
	return string(out)
}

// refUnquote removes the quotes of quoted strings, and the backslash of
// quoted pairs within quoted strings and comments, as RFC 5322 and Git do.
func refUnquote(s string) string {
	var out []byte
	quoted, depth := false, 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && (quoted || depth > 0) {
			if i+1 < len(s) {
				i++
				out = append(out, s[i])
			}
			continue
		}
		if c == '"' && depth == 0 {
			quoted = !quoted
			continue
		}
		if c == '(' && !quoted {
			depth++
		}
		if c == ')' && depth > 0 {
			depth--
		}
		out = append(out, c)
	}
	return string(out)
}

// refIdentity is the documented meaning of an identity.
func refIdentity(s string) (name, email string, ok bool) {
	s = refUnquote(refWords(s))
	at := -1
	for i := 0; i < len(s) && at < 0; i++ {
		if s[i] == '@' {
			at = i
		}
	}
	if at >= 0 {
		// the word around the at sign, up to brackets
		from, to := at, at+1
		for from > 0 && !isBlank(s[from-1]) && s[from-1] != '<' {
			from--
		}
		for to < len(s) && !isBlank(s[to]) && s[to] != '>' {
			to++
		}
		email = s[from:to]
		before, after := s[:from], s[to:]
		if from > 0 && before[from-1] == '<' {
			before = before[:from-1]
		}
		if len(after) > 0 && after[0] == '>' {
			after = after[1:]
		}
		name = before + after
	} else {
		open := -1
		for i := 0; i < len(s); i++ {
			if s[i] == '<' && open < 0 {
				open = i
			}
			if s[i] == '>' && open >= 0 {
				email = strings.TrimSpace(s[open+1 : i])
				name = s[:open]
				break
			}
		}
	}
	name = refWords(name)
	if len(name) > 1 && name[0] == '(' && name[len(name)-1] == ')' {
		name = name[1 : len(name)-1]
	}
	name = strings.TrimSpace(name)
	bad := len(name) == 0
	for i := 0; i < len(name); i++ {
		if name[i] == '@' || name[i] == '<' || name[i] == '>' {
			bad = true
		}
	}
	if bad {
		name = email
	}
	return name, email, len(name) > 0 || len(email) > 0
}

func checkIdentity(s string) {
	id, err := gitdiff.ParsePatchIdentity(s)
	name, email, ok := refIdentity(s)
	sym.Assert((err == nil) == ok, "wrong verdict on an identity")
	if err != nil {
		sym.Assert(id == gitdiff.PatchIdentity{}, "an identity is returned with an error")
		return
	}
	sym.Reach("ok")
	sym.Assert(id.Email == email, "wrong email")
	sym.Assert(id.Name == name, "wrong name")
	if len(id.Name) > 0 {
		sym.Assert(!isBlank(id.Name[0]) && !isBlank(id.Name[len(id.Name)-1]), "a name has surrounding space")
	}
	if len(id.Email) > 0 {
		sym.Assert(!isBlank(id.Email[0]) && !isBlank(id.Email[len(id.Email)-1]), "an email has surrounding space")
	}
}

// C20_any identities of 0..5 (6) arbitrary bytes.
func C20_any() { checkIdentity(sym.String("s", sym.Choose("len", pick(6, 7)))) }

// C20_inside 0..2 (3) arbitrary bytes anywhere in nine identities.
func C20_inside() {
	s := []string{"Na B <a@b>", "a@b (Na B)", "\"N. \\\"B\\\" C\" <a@b>", "N <ab>", "<a@b> (N (c) \\) d)", "a@b", "N B a@b c", "(a@b)", "N <a@b> (c)"}[sym.Choose("form", 9)]
	i := sym.Choose("i", 21)
	if i > len(s) {
		return
	}
	checkIdentity(s[:i] + sym.String("x", sym.Choose("len", pick(3, 4))) + s[i:])
}

// C20_two two arbitrary bytes at any two places of four identities.
func C20_two() {
	s := []string{"Na <a@b>", "a@b (N)", "\"N B\" <a>", "N B <ab>"}[sym.Choose("form", 4)]
	i, j := sym.Choose("i", 10), sym.Choose("j", 10)
	if i >= j || j > len(s) {
		return
	}
	checkIdentity(s[:i] + sym.String("x", 1) + s[i:j] + sym.String("y", 1) + s[j:])
}

func ordinaryName(s string) bool {
	ok := strings.TrimSpace(s) == s
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '<', '>', '(', ')', '@', '\t', '\n', '\r':
			ok = false
		case ' ':
			if i > 0 && s[i-1] == ' ' {
				ok = false
			}
		}
	}
	return ok
}

// C20_round_trip names of 1..3 (5) and emails of 0..2 (3) arbitrary bytes (in quick, at most 4
// together), within
// what the property states.
func C20_round_trip() {
	name := sym.String("name", 1+sym.Choose("namelen", pick(3, 5)))
	email := sym.String("email", sym.Choose("emaillen", pick(3, 4)))
	if len(name)+len(email) > pick(4, 8) {
		return
	}
	sym.Assume(ordinaryName(name))
	sym.Assume(strings.TrimSpace(email) == email)
	for i := 0; i < len(email); i++ {
		c := email[i]
		sym.Assume(!isBlank(c) && c != '<' && c != '>' && c != '"' && c != '\\' && c != '(' && c != ')')
	}
	id := gitdiff.PatchIdentity{Name: name, Email: email}
	got, err := gitdiff.ParsePatchIdentity(id.String())
	sym.Assert(err == nil, "a canonical identity is rejected")
	sym.Assert(got.Name == name, "the name of a canonical identity is changed")
	sym.Assert(got.Email == email, "the email of a canonical identity is changed")
}

// C20_forms the documented forms with a name of 1..3 and an email of 3
// arbitrary ordinary bytes and arbitrary extra white space: Name <email>,
// email (Name), email alone, <email> alone, and a quoted name with every
// second byte escaped.
func C20_forms() {
	name := sym.String("name", 1+sym.Choose("namelen", 3))
	e := sym.Bytes("e", 2)
	for _, c := range e {
		sym.Assume(!isBlank(c) && c != '<' && c != '>' && c != '"' && c != '\\' && c != '(' && c != ')')
	}
	email := string(e[:1]) + "@" + string(e[1:])
	ws := sym.String("ws", 2)
	sym.Assume(isBlank(ws[0]) && isBlank(ws[1]))
	var s string
	form := sym.Choose("form", 5)
	switch form {
	case 0:
		sym.Assume(ordinaryName(name))
		s = ws + name + ws + "<" + email + ">" + ws
	case 1:
		sym.Assume(ordinaryName(name))
		for i := 0; i < len(name); i++ {
			sym.Assume(name[i] != '\\')
		}
		s = ws[:1] + email + ws + "(" + name + ")"
	case 2:
		s, name = ws+email+ws[1:], email
	case 3:
		s, name = ws[:1]+"<"+email+">"+ws, email
	case 4:
		// white space is normalised before quotes are looked at
		q := ""
		for i := 0; i < len(name); i++ {
			c := name[i]
			sym.Assume(!isBlank(c) && c != '@' && c != '<' && c != '>')
			if i == 0 && (c == '(' || c == ')') {
				return // looks like a comment
			}
			if c == '"' || c == '\\' || i&1 == 1 {
				q += "\\"
			}
			q += name[i : i+1]
		}
		sym.Assume(strings.TrimSpace(name) == name)
		s = "\"" + q + "\"" + ws + "<" + email + ">"
	}
	got, err := gitdiff.ParsePatchIdentity(s)
	sym.Assert(err == nil, "a documented form is rejected")
	sym.Assert(got.Email == email, "wrong email in a documented form")
	sym.Assert(got.Name == name, "wrong name in a documented form")
}
