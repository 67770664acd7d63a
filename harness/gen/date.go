package gen

import (
	"fmt"
	"strings"

	"vharness/ref"
)

var (
	monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
	dayNames   = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
	zoneNames  = []string{"UT", "UTC", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT"}
)

// MonthName, DayName and ZoneNames spell the fields.
func MonthName(m int) string { return monthNames[m-1] }
func DayName(d int) string   { return dayNames[d] }
func ZoneNames() []string    { return zoneNames }

// Style says how a date is spelled.
type Style struct {
	DayName   string // "" for none
	PadDay    bool
	NoSeconds bool
	PadHour   bool
	TwoDigit  bool
	Gaps      []string // whitespace before: day, month, year, hour; around colons; before zone; at the end
}

// Date renders a random date-time together with its fields. valid keeps every
// field within its calendar range.
func (g *G) Date(valid bool) (string, ref.Date) {
	var d ref.Date
	d.Year = Pick(g, g.Intn(10000), 1900+g.Intn(200), 1970+g.Intn(70), Pick(g, 0, 1, 4, 99, 100, 400, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2038, 2100, 9999))
	d.Month = 1 + g.Intn(12)
	dim := daysIn(d.Year, d.Month)
	d.Day = 1 + g.Intn(dim)
	if g.P(1, 4) {
		d.Day = Pick(g, 1, 9, 10, 28, dim)
	}
	d.Hour, d.Min, d.Sec = g.Intn(24), g.Intn(60), g.Intn(60)
	if g.P(1, 8) {
		d.Hour, d.Min, d.Sec = Pick(g, 0, 12, 23), Pick(g, 0, 59), Pick(g, 0, 59, 60)
	}
	if !valid {
		switch g.Intn(4) {
		case 0:
			d.Day = g.Intn(100)
		case 1:
			d.Hour = g.Intn(100)
		case 2:
			d.Min = g.Intn(100)
		case 3:
			d.Sec = g.Intn(100)
		}
	}
	w := func() string { return g.CFWS() } // where comments may stand
	o := func() string { return g.Opt() }
	f := func() string { return g.FWS() } // where only whitespace may stand
	var s strings.Builder
	if g.P(2, 3) {
		g.F("dayname")
		s.WriteString(o() + g.caseName(Pick(g, dayNames...)) + o() + ",")
	}
	s.WriteString(o())
	if d.Day < 10 && g.P(1, 2) {
		g.F("one-digit-day")
		fmt.Fprintf(&s, "%d", d.Day)
	} else {
		fmt.Fprintf(&s, "%02d", d.Day)
	}
	if g.P(4, 5) {
		s.WriteString(w())
	}
	s.WriteString(g.caseName(monthNames[d.Month-1]))
	if g.P(1, 6) {
		g.F("two-digit-year")
		d.Year %= 100
		d.TwoDigit = true
		if d.Day > daysIn(1900+d.Year, d.Month) || d.Day > daysIn(2000+d.Year, d.Month) {
			g.F("carried-day") // 29 Feb of a year that has none
		}
		fmt.Fprintf(&s, "%s%02d%s", o(), d.Year, w())
	} else {
		fmt.Fprintf(&s, "%s%04d%s", f(), d.Year, f())
	}
	if d.Hour < 10 && g.P(1, 2) {
		g.F("one-digit-hour")
		fmt.Fprintf(&s, "%d", d.Hour)
	} else {
		fmt.Fprintf(&s, "%02d", d.Hour)
	}
	fmt.Fprintf(&s, "%s:%s%02d", o(), o(), d.Min)
	if g.P(1, 5) {
		g.F("no-seconds")
		d.Sec = 0
	} else {
		fmt.Fprintf(&s, "%s:%s%02d", o(), o(), d.Sec)
	}
	d.Zone = "UTC"
	switch g.Intn(6) {
	case 0:
		g.F("no-zone")
	case 1, 2:
		g.F("named-zone")
		z := g.caseName(Pick(g, zoneNames...))
		s.WriteString(Pick(g, " ", " ", "", o()) + z)
		d.Zone, d.HasZone = z, true
		d.Offset = ref.NamedZones[strings.ToLower(z)] * 3600
	default:
		g.F("offset")
		hh, mm := g.Intn(24), g.Intn(60)
		if g.P(1, 3) {
			hh, mm = Pick(g, 0, 1, 5, 12, 14), Pick(g, 0, 30, 45)
		}
		if !valid && g.P(1, 3) {
			hh, mm = g.Intn(100), g.Intn(100)
		}
		sign := Pick(g, "+", "-", "-", "")
		s.WriteString(f() + sign + fmt.Sprintf("%02d%02d", hh, mm))
		d.Offset = (hh*60 + mm) * 60
		if sign == "-" {
			d.Offset = -d.Offset
		}
		if sign == "" {
			g.F("unsigned-offset")
			sign = "+"
		}
		d.Zone, d.HasZone = fmt.Sprintf("%s%02d%02d", sign, hh, mm), true
	}
	s.WriteString(o())
	return s.String(), d
}

func (g *G) caseName(s string) string {
	if g.P(2, 3) {
		return s
	}
	g.F("case-variant")
	return caseMix(g, strings.ToLower(s))
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// DaysIn is the length of a month.
func DaysIn(y, m int) int { return daysIn(y, m) }

var dateSoup = []string{
	"Mon,", "Fri, ", "fri", "21", " 21 ", "1", "0", "31", "32", "Nov", " nov ", "JAN", "May", "97", " 1997 ", "2000 ", " 0000 ", "09", "9", ":", ":", ":55", ":06",
	" ", "  ", "\t", "\r\n ", "(c)", " (c) ", "(", ")", "+", "-", " +0100", " -0030", " 0000", "+01", " GMT", " est", "UT", "UTC", "Z", " A", ",", "\\", "é", "😀", "\x00", "\r", "\n",
	"21 Nov 1997 ", "09:55:06", "12:30", "1 Jan 2000 00:00",
}

// DateSoup strings date tokens together.
func (g *G) DateSoup(max int) string {
	var b strings.Builder
	for n := 1 + g.Intn(max); n > 0; n-- {
		b.WriteString(dateSoup[g.Intn(len(dateSoup))])
	}
	return b.String()
}

// MutateDate damages a date-time.
func (g *G) MutateDate(s string) string {
	for n := 1 + g.Intn(2); n > 0; n-- {
		rs := []rune(s)
		if len(rs) == 0 {
			return s
		}
		at := g.Intn(len(rs))
		ins := Pick(g, "0", "1", "9", " ", " ", ":", ",", "(c)", "+", "-", "\r\n ", "a", "J", Pick(g, dateSoup...))
		switch g.Intn(5) {
		case 0:
			s = string(rs[:at]) + string(rs[at+1:])
		case 1:
			s = string(rs[:at]) + ins + string(rs[at:])
		case 2:
			s = string(rs[:at]) + ins + string(rs[at+1:])
		case 3:
			b := g.Intn(len(rs))
			rs[at], rs[b] = rs[b], rs[at]
			s = string(rs)
		case 4:
			if g.P(1, 2) {
				s = string(rs[:at])
			}
		}
	}
	return s
}
