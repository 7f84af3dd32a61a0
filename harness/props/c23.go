package props

import (
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
	"verif/harness/sym"
)

var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayNames = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}

func monthDays(y, m int) int {
	switch {
	case m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0):
		return 29
	case m == 2:
		return 28
	case m == 4 || m == 6 || m == 9 || m == 11:
		return 30
	}
	return 31
}

// refDays counts the days from 1970-01-01 to a date.
func refDays(y, m, d int) int64 {
	n := int64(d - 1)
	for k := 1; k < m; k++ {
		n += int64(monthDays(y, k))
	}
	for k := 1970; k < y; k++ {
		n += 337 + int64(monthDays(k, 2))
	}
	for k := y; k < 1970; k++ {
		n -= 337 + int64(monthDays(k, 2))
	}
	return n
}

func two(n int) string { return itoa(n/10) + itoa(n%10) }

// symTwo is a number of two arbitrary digits below limit and its text.
func symTwo(name string, limit int64) (int64, string) {
	s := sym.String(name, 2)
	for i := 0; i < 2; i++ {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
	}
	n := int64(s[0]-'0')*10 + int64(s[1]-'0')
	sym.Assume(n < limit)
	return n, s
}

func year4(y int) string { return two(y/100) + two(y%100) }

// dateText writes a time in one of Git's formats.
func dateText(form, y, m, d int, clock, zone string) string {
	date := year4(y) + "-" + two(m) + "-" + two(d)
	w := dayNames[((refDays(y, m, d)+4)%7+7)%7]
	switch form {
	case 0: // iso
		return date + " " + clock + " " + zone
	case 1: // iso-strict
		return date + "T" + clock + zone[:3] + ":" + zone[3:]
	case 2: // rfc
		return w + ", " + itoa(d) + " " + monthNames[m-1] + " " + year4(y) + " " + clock + " " + zone
	case 3: // default
		return w + " " + monthNames[m-1] + " " + itoa(d) + " " + clock + " " + year4(y) + " " + zone
	case 4: // default-local
		return w + " " + monthNames[m-1] + " " + itoa(d) + " " + clock + " " + year4(y)
	case 5: // short
		return date
	}
	return ""
}

// localZone sets the local time zone to one of several fixed zones.
func localZone() (off int64, restore func()) {
	old := time.Local
	off = []int64{0, 3600, -7 * 3600, 19800}[sym.Choose("local", pick(3, 4))]
	if off == 0 {
		time.Local = time.UTC
	} else {
		time.Local = time.FixedZone("LOC", int(off))
	}
	return off, func() { time.Local = old }
}

func checkTime(s string, unix, off int64) {
	t, err := gitdiff.ParsePatchDate(s)
	sym.Assert(err == nil, "a date in a supported format is rejected")
	if err == nil {
		sym.Assert(t.Unix() == unix && t.Nanosecond() == 0, "a date denotes another instant")
		_, o := t.Zone()
		sym.Assert(int64(o) == off, "a date denotes another zone offset")
	}
}

// C23_formats days at the ends of months of five (fourteen) years in six
// formats, any time of day, five zone offsets, in three (four) local time
// zones.
func C23_formats() {
	local, restore := localZone()
	defer restore()
	years := []int{1970, 2000, 2005, 2024, 2100, 1969, 1900, 1999, 2038, 2399, 2400, 9999, 1000, 2001}
	y := years[sym.Choose("year", pick(5, len(years)))]
	m := 1 + sym.Choose("month", 12)
	d := []int{monthDays(y, m), 1, 9, 10}[sym.Choose("day", pick(2, 4))]
	form := sym.Choose("form", 6)
	hh, hs := symTwo("hour", 24)
	mm, ms := symTwo("min", 60)
	ss, sc := symTwo("sec", 60)
	unix := refDays(y, m, d)*86400 + hh*3600 + mm*60 + ss
	off := local
	zone := ""
	if form < 4 {
		k := sym.Choose("zone", 5)
		off = []int64{0, 3600, -7 * 3600, -34200, 20700}[k]
		zone = []string{"+0000", "+0100", "-0700", "-0930", "+0545"}[k]
	}
	if form == 5 {
		unix = refDays(y, m, d) * 86400
	}
	checkTime(dateText(form, y, m, d, hs+":"+ms+":"+sc, zone), unix-off, off)
}

// C23_zones four formats and the raw format with any zone offset up to
// 23:59 and any seconds, on two (six) days, in three (four) local time zones.
func C23_zones() {
	_, restore := localZone()
	defer restore()
	k := sym.Choose("date", pick(2, 6))
	y, m, d := []int{2005, 2024, 1969, 2000, 2100, 1999}[k], []int{1, 2, 12, 2, 3, 12}[k], []int{1, 29, 31, 29, 1, 31}[k]
	ss, sc := symTwo("sec", 60)
	unix := refDays(y, m, d)*86400 + 23*3600 + 5*60 + ss
	zh, zhs := symTwo("zh", 24)
	zm, zms := symTwo("zm", 60)
	off := zh*3600 + zm*60
	zone := "+" + zhs + zms
	if sym.Choose("sign", 2) == 1 {
		off = -off
		zone = "-" + zhs + zms
	}
	if form := sym.Choose("form", 5); form == 4 {
		n := sym.Choose("n", 2)
		checkTime([]string{"1112911993 ", "-1 "}[n]+zone, []int64{1112911993, -1}[n], off)
	} else {
		checkTime(dateText(form, y, m, d, "23:05:"+sc, zone), unix-off, off)
	}
}

// C23_days every day of the year in the six formats and ten years (year 0 among them).
func C23_days() {
	y := []int{2000, 2023, 0, 2004, 1900, 2100, 1972, 1601, 2400, 1}[sym.Choose("year", pick(3, 10))]
	m := 1 + sym.Choose("month", 12)
	d := 1 + sym.Choose("day", monthDays(y, m))
	form := sym.Choose("form", 6)
	old := time.Local
	time.Local = time.UTC
	defer func() { time.Local = old }()
	unix := refDays(y, m, d) * 86400
	off := int64(0)
	if form != 5 {
		ss, sc := symTwo("sec", 60)
		unix += 11*3600 + 9*60 + ss
		if form < 4 {
			off = -(9*3600 + 1800)
		}
		checkTime(dateText(form, y, m, d, "11:09:"+sc, "-0930"), unix-off, off)
		return
	}
	checkTime(dateText(form, y, m, d, "", ""), unix, 0)
}

// C23_out days, hours, minutes, seconds, months that do not exist, in the six
// formats, are errors.
func C23_out() {
	y := []int{2001, 2000, 1900}[sym.Choose("year", 3)]
	form := sym.Choose("form", 6)
	m, d, clock, zone := 6, 10, "10:20:30", "+0100"
	bad, bs := symTwo("bad", 100)
	switch sym.Choose("what", 7) {
	case 0:
		m = 1 + sym.Choose("month", 12)
		d = monthDays(y, m) + 1 + sym.Choose("over", 3)
	case 1:
		sym.Assume(bad >= 24)
		clock = bs + ":20:30"
	case 2:
		sym.Assume(bad >= 60)
		clock = "10:" + bs + ":30"
	case 3:
		sym.Assume(bad >= 60)
		clock = "10:20:" + bs
	case 4:
		sym.Assume(bad > 60) // the time package takes 60
		zone = "+01" + bs
	case 5:
		clock = "10:20"
	case 6:
		d = 0
	}
	s := ""
	if m <= 12 {
		s = dateText(form, y, m, d, clock, zone)
	}
	what := strings.Contains(s, clock) && clock != "10:20:30" || strings.Contains(s, zone[3:]) && zone != "+0100" && form < 4 || d != 10
	if !what {
		return
	}
	_, err := gitdiff.ParsePatchDate(s)
	sym.Assert(err != nil, "a date that does not exist is accepted")
}

// C23_unix decimal numbers of 1..4 (6) arbitrary digits, with or without a
// sign, behind nothing or four longer numbers (about 2^31 and 2^32), in unix and raw format with four zones.
func C23_unix() {
	local, restore := localZone()
	defer restore()
	s := sym.String("n", 1+sym.Choose("len", pick(4, 6)))
	v := int64(0)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + int64(s[i]-'0')
	}
	if k := sym.Choose("long", 5); k > 0 {
		long := []string{"", "158664", "214748", "42949672", "92233720368"}[k]
		p, _ := digits(long)
		for range s {
			p *= 10
		}
		s, v = long+s, v+int64(p)
	}
	if sym.Choose("neg", 2) == 1 {
		s, v = "-"+s, -v
	}
	if sym.Choose("raw", 2) == 0 {
		checkTime(s, v, local)
		return
	}
	k := sym.Choose("zone", 4)
	checkTime(s+[]string{" +0000", " -0700", " +0545", " +2359"}[k], v, []int64{0, -7 * 3600, 20700, 86340}[k])
}

// isNumber tells whether s is what the unix format accepts.
func isNumber(s string) bool {
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		s = s[1:]
	}
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return ok
}

// C23_other the empty text is the zero time, and 1..5 (7) other arbitrary
// bytes are an error unless they are a number.
func C23_other() {
	t, err := gitdiff.ParsePatchDate("")
	sym.Assert(err == nil && t.IsZero(), "the empty text is not the zero time")
	s := sym.String("s", 1+sym.Choose("len", pick(5, 7)))
	sym.Assume(!isNumber(s))
	t, err = gitdiff.ParsePatchDate(s)
	sym.Assert(err != nil, "a text that is no date is accepted")
	sym.Assert(t.IsZero(), "a time is returned with an error")
}

// C23_damaged a date in eight formats with one arbitrary byte other than a
// digit, sign, space or letter instead of, or in addition to, any of its bytes,
// or cut anywhere, is an error or is a shorter date in another format.
func C23_damaged() {
	old := time.Local
	time.Local = time.UTC
	defer func() { time.Local = old }()
	forms := []string{"2005-04-07 22:13:13 +0200", "2005-04-07T22:13:13-07:00", "Thu, 7 Apr 2005 22:13:13 +0200", "2005-04-07", "Thu Apr 7 22:13:13 2005 -0700", "Thu Apr 17 22:13:13 2005", "1112911993", "1112911993 -0700"}
	form := sym.Choose("form", len(forms))
	s := forms[form]
	i := sym.Choose("i", 31)
	if i > len(s) {
		return
	}
	c := sym.Byte("c")
	sym.Assume(sym.Not(sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.Or(c == '+', c == '-'), sym.Or(c == ' ', sym.And(c|0x20 >= 'a', c|0x20 <= 'z'))))))
	switch sym.Choose("how", 3) {
	case 0:
		s = s[:i] + string([]byte{c}) + s[i:]
	case 1:
		if i == len(s) || s[i] == ':' || s[i] == ',' {
			return
		}
		s = s[:i] + string([]byte{c}) + s[i+1:]
	case 2:
		if i == 0 || i == len(s) || isNumber(s[:i]) || i == 10 && s[4] == '-' || form == 4 && (i == len(s)-6 || i == len(s)-5) {
			return
		}
		s = s[:i]
	}
	_, err := gitdiff.ParsePatchDate(s)
	sym.Assert(err != nil, "a damaged date is accepted")
}

// C23_parts the texts that lack one to three of the words of a date (its day, month,
// year, clock, zone, and so on) in the six formats and the raw one, or have two of them exchanged, with any
// two digits for the seconds: an error unless they are a date in another format.
func C23_parts() {
	_, restore := localZone()
	defer restore()
	sec, sc := symTwo("sec", 60)
	clock := "22:13:" + sc
	forms := [][]string{
		{"2005-04-17", " ", clock, " ", "+0200"},
		{"2005-04-17", "T", clock, "-07:00"},
		{"Sun, ", "17 ", "Apr ", "2005 ", clock, " ", "-0700"},
		{"Sun ", "Apr ", "17 ", clock, " ", "2005", " ", "+0545"},
		{"Sun ", "Apr ", "17 ", clock, " ", "2005"},
		{"2005", "-", "04", "-", "17"},
		{"11129119" + sc, " ", "-0700"},
	}
	form := sym.Choose("form", len(forms))
	parts := forms[form]
	i, n := sym.Choose("i", 7), 1+sym.Choose("n", 3)
	if i+n > len(parts) {
		return
	}
	j := sym.Choose("j", 9)
	s := ""
	for k, p := range parts {
		switch {
		case j == 8 && k >= i && k < i+n:
		case j == k && n == 1:
			s += parts[i]
		case j < 8 && k == i && n == 1:
			if j >= len(parts) {
				return
			}
			s += parts[j]
		default:
			s += p
		}
	}
	if j < 8 && (n > 1 || i == j) {
		return
	}
	t, err := gitdiff.ParsePatchDate(s)
	full := ""
	for _, p := range parts {
		full += p
	}
	switch {
	case s == "", s == full:
		return
	case form == 0 && s == "2005-04-17", form == 1 && s == "2005-04-17":
		sym.Assert(err == nil && t.Year() == 2005 && t.Month() == 4 && t.Day() == 17 && t.Hour() == 0, "a short date is rejected")
	case form == 3 && s == full[:len(full)-6]:
		sym.Assert(err == nil && t.Day() == 17 && t.Hour() == 22 && int64(t.Second()) == sec, "a local date is rejected")
	case isNumber(s):
		sym.Assert(err == nil, "a number is rejected")
	default:
		sym.Assert(err != nil, "a text that is no date is accepted")
	}
}

// C23_raw a time in raw format with one arbitrary byte at any place in it is
// an error unless the numbers are still numbers, and then the time they denote.
func C23_raw() {
	c := sym.Byte("c")
	s := "111291199 -0130"
	i := sym.Choose("i", len(s)+1)
	s = s[:i] + string([]byte{c}) + s[i:]
	if i <= 9 && c != ' ' || i == 0 {
		ok := sym.Or(isNumber(s[:10]), c == ' ' && i == 0)
		if !ok {
			_, err := gitdiff.ParsePatchDate(s)
			sym.Assert(err != nil, "a damaged date is accepted")
		} else if c >= '0' && c <= '9' {
			n, _ := digits(s[:10])
			checkTime(s, int64(n), -5400)
		}
		return
	}
	_, err := gitdiff.ParsePatchDate(s)
	sym.Assert(err != nil, "a damaged date is accepted")
}
