package main

import (
	"fmt"
	"strings"
	"time"

	"vharness/gen"
	"vharness/ref"
)

// zonesLocal are the local time zones workers run under: a result must not
// depend on where the process lives.
func setLocal(c *Ctx, i int) {
	switch i % 5 {
	case 0:
		time.Local = time.UTC
	case 1:
		time.Local = time.FixedZone("WEST", -9*3600-1800)
	case 2:
		time.Local = time.FixedZone("EAST", 13*3600+2700)
	case 3:
		if l, err := time.LoadLocation("America/New_York"); err == nil {
			time.Local = l
			c.Count("local.new-york", 1)
		}
	case 4:
		if l, err := time.LoadLocation("Europe/Berlin"); err == nil {
			time.Local = l
			c.Count("local.berlin", 1)
		}
	}
	c.Count(fmt.Sprintf("local-zone.%d", i%5), 1)
}

func cases8(s string) []string {
	var out []string
	for m := 0; m < 1<<len(s); m++ {
		b := []byte(strings.ToLower(s))
		for k := range b {
			if m>>k&1 == 1 {
				b[k] -= 32
			}
		}
		out = append(out, string(b))
	}
	return out
}

// spell writes a date in one of several spellings.
func spell(d ref.Date, style int) string {
	var b strings.Builder
	if style&1 != 0 {
		w := time.Date(d.Year, time.Month(d.Month), d.Day, 0, 0, 0, 0, time.UTC).Weekday()
		if style&32 != 0 {
			w = (w + 3) % 7 // a wrong day of the week does not matter
		}
		b.WriteString(gen.DayName(int(w)) + ", ")
	}
	if style&2 != 0 {
		fmt.Fprintf(&b, "%d ", d.Day)
	} else {
		fmt.Fprintf(&b, "%02d ", d.Day)
	}
	b.WriteString(gen.MonthName(d.Month))
	if d.TwoDigit {
		fmt.Fprintf(&b, " %02d ", d.Year)
	} else {
		fmt.Fprintf(&b, " %04d ", d.Year)
	}
	if style&4 != 0 && d.Hour < 10 {
		fmt.Fprintf(&b, "%d:%02d", d.Hour, d.Min)
	} else {
		fmt.Fprintf(&b, "%02d:%02d", d.Hour, d.Min)
	}
	if d.Sec != 0 || style&8 == 0 {
		fmt.Fprintf(&b, ":%02d", d.Sec)
	}
	if d.HasZone {
		b.WriteString(" " + d.Zone)
	}
	return b.String()
}

func offsetZone(d ref.Date, off int) ref.Date {
	d.Offset = off
	a, sign := off, "+"
	if off < 0 {
		a, sign = -off, "-"
	}
	d.Zone, d.HasZone = fmt.Sprintf("%s%02d%02d", sign, a/3600, a/60%60), true
	return d
}

// date monitors one date-time.
func (c *Ctx) date(kind string, d ref.Date, style int) {
	in := spell(d, style)
	c.ExpectDate(kind, in, d)
	c.Nontrivial(in)
	c.Sample("%q -> %s", in, dateWant(d))
}

func init() {
	base := ref.Date{Year: 2004, Month: 2, Day: 29, Hour: 11, Min: 34, Sec: 7, Zone: "+0000", HasZone: true}
	sections(&Prop{
		ID: "P10",
		Rule: "A case writes calendar fields as a date-time and expects the instant (own Gregorian arithmetic), the UTC offset and the zone name. Swept completely: every day of 1890-2110, first and last days of every month and leap days of " +
			"every year 0000-9999, all two-digit years in every month, every hour x minute, every second, every out-of-range day/hour/minute/second, all 10,000 offsets with each sign, all letter cases of months, days of the week and zones, all spellings. " +
			"The rest is random. The process's local time zone is varied. Non-trivial: a distinct input.",
		MinNontrivial: fixed(50000),
		Assume:        []string{"a two-digit year means the latest year with those digits that is not in the future", "fields beyond their range carry over into the next larger one"},
	},
		section{"fresh-numbers", fixed(20 * min(20, len(vocab().ints))), func(c *Ctx, i int) {
			// dates made of numbers the source did not have before
			setLocal(c, i)
			v := vocab().ints
			num := func(max int, usual int) int {
				n := v[i/20]
				if c.rng.Intn(3) == 0 {
					n = v[c.rng.Intn(len(v))]
				}
				if n += int64(c.rng.Intn(3) - 1); n < 0 || n > int64(max) || c.rng.Intn(2) == 0 {
					return usual
				}
				return int(n)
			}
			for k := 0; k < 100; k++ {
				d := ref.Date{Year: num(9999, 1900+c.rng.Intn(200)), Month: num(12, 1+c.rng.Intn(12)), Day: num(31, 1+c.rng.Intn(28)), Hour: num(99, c.rng.Intn(24)), Min: num(99, c.rng.Intn(60)), Sec: num(99, c.rng.Intn(60))}
				if d.Month == 0 {
					d.Month = 12
				}
				if k%4 == 0 {
					d.TwoDigit, d.Year = true, d.Year%100
				}
				z := num(9999, c.rng.Intn(14)*100+c.rng.Intn(2)*30)
				sign := 1 - c.rng.Intn(2)*2
				d.Offset, d.HasZone = sign*(z/100*60+z%100)*60, true
				d.Zone = fmt.Sprintf("%s%04d", map[int]string{1: "+", -1: "-"}[sign], z)
				c.date("fresh-numbers", d, c.rng.Intn(64)&^1)
			}
		}},
		section{"date-fields", fixed(40), func(c *Ctx, i int) {
			// every two notable fields, some more
			setLocal(c, i)
			fieldPairs(i, 40, func(s string) { c.AgreeDate("date-fields", s) })
			for k := 0; k < 200; k++ {
				s := c.anyFields(3 + k%4)
				c.AgreeDate("date-fields", s)
				c.Nontrivial(s)
			}
		}},
		section{"every-day", fixed(221), func(c *Ctx, i int) {
			setLocal(c, i)
			d := base
			d.Year = 1890 + i
			for d.Month = 1; d.Month <= 12; d.Month++ {
				for d.Day = 1; d.Day <= gen.DaysIn(d.Year, d.Month); d.Day++ {
					d.Hour, d.Min, d.Sec = (d.Day+d.Month)%24, (d.Day*7+i)%60, (d.Day*13+d.Month)%60
					z := offsetZone(d, ((d.Day*3600)%(14*3600)-7*3600)/1800*1800)
					c.date("day", z, (d.Day+i)%64)
				}
			}
		}},
		section{"every-year", fixed(1000), func(c *Ctx, i int) {
			setLocal(c, i)
			for y := i * 10; y < i*10+10; y++ {
				d := base
				d.Year = y
				for k, md := range [][2]int{{1, 1}, {2, 28}, {2, gen.DaysIn(y, 2)}, {3, 1}, {12, 31}, {1 + y%12, 0}} {
					d.Month, d.Day = md[0], md[1]
					if d.Day == 0 {
						d.Day = gen.DaysIn(y, d.Month)
					}
					d.Hour, d.Min, d.Sec = y%24, y%60, (y*7)%60
					c.date("year", d, (k*5+y)%64)
				}
				if gen.DaysIn(y, 2) == 28 {
					d.Month, d.Day = 2, 29 // carries over to 1 March
					c.date("carried-leap-day", d, 0)
				}
			}
		}},
		section{"two-digit-years", fixed(100), func(c *Ctx, i int) {
			setLocal(c, i)
			d := base
			d.Year, d.TwoDigit = i, true
			for d.Month = 1; d.Month <= 12; d.Month++ {
				for _, d.Day = range []int{1, 15, 28, 29, 31} {
					c.date("two-digit-year", d, d.Day&^1%32)
				}
			}
		}},
		section{"hours-minutes", fixed(24), func(c *Ctx, i int) {
			setLocal(c, i)
			d := base
			for d.Hour, d.Min = i, 0; d.Min < 60; d.Min++ {
				for _, off := range []int{0, -5 * 3600, 5*3600 + 1800, 13 * 3600, -11*3600 - 1800} {
					for st := 0; st < 16; st += 4 {
						d.Sec = (d.Min * st) % 60
						c.date("hour-minute", offsetZone(d, off), st)
					}
				}
			}
		}},
		section{"out-of-range", fixed(100), func(c *Ctx, i int) {
			setLocal(c, i)
			for m := 1; m <= 12; m++ {
				for _, y := range []int{1999, 2000, 2024, 0, 9999} {
					d := base
					d.Year, d.Month, d.Day = y, m, i
					c.date("any-day", d, 0)
				}
				d := base
				d.Month, d.Day = m, 1+m
				d.Hour = i
				c.date("any-hour", d, 0)
				d.Hour, d.Min = m, i
				c.date("any-minute", d, 0)
				d.Min, d.Sec = m, i
				c.date("any-second", d, 0)
			}
		}},
		section{"offsets", fixed(100), func(c *Ctx, i int) {
			setLocal(c, i)
			for mm := 0; mm < 100; mm++ {
				for k, sign := range []string{"+", "-", ""} {
					if !c.thorough && k == 2 && (mm+i)%3 != 0 {
						continue
					}
					d := base
					d.Offset = (i*60 + mm) * 60
					if sign == "-" {
						d.Offset = -d.Offset
					}
					z := fmt.Sprintf("%02d%02d", i, mm)
					in := spell(ref.Date{Year: d.Year, Month: d.Month, Day: d.Day, Hour: d.Hour, Min: d.Min, Sec: d.Sec}, 0) + " " + sign + z
					d.Zone = sign + z
					if sign == "" {
						d.Zone = "+" + z
					}
					c.ExpectDate("offset", in, d)
					c.Nontrivial(in)
				}
			}
		}},
		section{"names", fixed(12), func(c *Ctx, i int) {
			setLocal(c, i)
			for _, mon := range cases8(gen.MonthName(i + 1)) {
				for w := 0; w < 7; w++ {
					for k, day := range cases8(gen.DayName(w)) {
						in := fmt.Sprintf("%s, %d %s 20%02d %02d:00:00 +0100", day, k+1, mon, w, i)
						d := ref.Date{Year: 2000 + w, Month: i + 1, Day: k + 1, Hour: i, Offset: 3600, Zone: "+0100", HasZone: true}
						c.ExpectDate("names", in, d)
						c.Nontrivial(in)
					}
				}
			}
		}},
		section{"zones", fixed(len(gen.ZoneNames())), func(c *Ctx, i int) {
			setLocal(c, i)
			name := gen.ZoneNames()[i]
			for _, z := range cases8(name) {
				for m := 1; m <= 12; m++ { // daylight saving plays no part
					for _, gap := range []string{" ", "", "  ", "(c)", "\r\n "} {
						in := fmt.Sprintf("%d %s 2021 %d:30:15%s%s", m*2, gen.MonthName(m), m, gap, z)
						d := ref.Date{Year: 2021, Month: m, Day: m * 2, Hour: m, Min: 30, Sec: 15, Zone: z, HasZone: true, Offset: ref.NamedZones[strings.ToLower(name)] * 3600}
						c.ExpectDate("zones", in, d)
						in = fmt.Sprintf("%d %s 2021 %d:30%s%s", m*2, gen.MonthName(m), m, gap, z)
						d.Sec = 0
						c.ExpectDate("zones", in, d)
						c.Nontrivial(in)
					}
				}
			}
		}},
		section{"no-zone", fixed(60), func(c *Ctx, i int) {
			setLocal(c, i)
			d := base
			d.Zone, d.HasZone, d.Month, d.Min, d.Sec = "UTC", false, 1+i%12, i, i
			for st := 0; st < 64; st++ {
				c.date("no-zone", d, st)
			}
		}},
		section{"empty", fixed(5), func(c *Ctx, i int) {
			setLocal(c, i)
			c.AgreeDate("empty", "")
		}},
		section{"random", tiers(60000, 800000), func(c *Ctx, i int) {
			setLocal(c, i/64)
			in, d := c.g.Date(i%3 != 0)
			if i%10 == 0 && !c.ConstructDate(in, d) {
				return
			}
			c.ExpectDate("random", in, d)
			c.Nontrivial(in)
		}},
	)

	seeds := []string{"Fri, 21 Nov 1997 09:55:06 -0600", "1 Jan 00 0:00 GMT", " Mon , 2(c) feb 2004 1 : 2 : 3 +0130 (x)", "01Mar99 10:20:30 EST", "31 Dec 9999 23:59:60 +0000", "thu,\r\n 13 Feb 1969 23:32 -0330", "7 Apr 49 5:6", "0 Jan 0000 99:99:99 9999"}
	seeds = append(seeds[:6], seeds[7])
	type edit struct{ s, pos int }
	var edits []edit
	for s, x := range seeds {
		for p := 0; p <= len(x); p++ {
			edits = append(edits, edit{s, p})
		}
	}
	words := []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun", "UT", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "UTC", "Z", "A", "M", "Sept", "June", "January", "Monday", "Tues", "CET", "BST", "MEST", "JST", "Mai", "+", "-", "+1", "+01", "+010", "+01000", "+01:00", "UTC+1", "GMT+0100", "GMT-5"}
	const letters = "abcdefghijklmnopqrstuvwxyz"
	sections(&Prop{
		ID: "P11",
		Rule: "An input is a date-time built from the grammar, a mutation of one, a string of date tokens, every one-character insertion, replacement (130 characters) and deletion in " + fmt.Sprint(len(seeds)) + " seed dates, " +
			"every three-letter word in the place of the month, the day of the week and the zone, or one of every digit count in each field. The reference model says whether it must be accepted and what it denotes; " +
			"the library's verdict and value are compared. Non-trivial: a distinct input the model decided.",
		MinNontrivial: fixed(50000),
		Assume:        []string{"the published grammar RFC5322Parser.g4 (frozen copy) is the definition of the language"},
	},
		dictLanguage(seeds, func(c *Ctx, s string) { c.dateLanguage("dictionary", s) }),
		scaled(4000, true, func(c *Ctx, f family, s string) { c.dateLanguage("scaled", s) }),
		section{"edits", fixed(len(edits)), func(c *Ctx, i int) {
			e := edits[i]
			x := seeds[e.s]
			for ch := 0; ch < 130; ch++ {
				r := string(rune(ch))
				if ch >= 128 {
					r = []string{"é", "😀"}[ch-128]
				}
				c.dateLanguage("insert", x[:e.pos]+r+x[e.pos:])
				if e.pos < len(x) {
					c.dateLanguage("replace", x[:e.pos]+r+x[e.pos+1:])
				}
			}
			if e.pos < len(x) {
				c.dateLanguage("delete", x[:e.pos]+x[e.pos+1:])
				for k := e.pos + 1; k < len(x); k++ {
					c.dateLanguage("cut", x[:e.pos]+x[k:])
				}
			}
			c.dateLanguage("truncate", x[:e.pos])
			c.dateLanguage("tail", x[e.pos:])
		}},
		section{"words", fixed(len(words)), func(c *Ctx, i int) {
			for _, f := range []string{"Mon, 1 %s 2000 00:00:00 +0000", "%s, 1 Jan 2000 00:00:00 +0000", "1 Jan 2000 00:00:00 %s", "1 Jan 2000 00:00%s", "%s 1 Jan 2000 00:00:00", "1 Jan 2000 00:00:00 +0000 (%s)", "1 Jan 2000 00:00:00 +0000 %s"} {
				for _, w := range []string{words[i], strings.ToUpper(words[i]), strings.ToLower(words[i])} {
					c.dateLanguage("words", fmt.Sprintf(f, w))
				}
			}
		}},
		section{"three-letters", fixed(26 * 26), func(c *Ctx, i int) {
			for k := 0; k < 26; k++ {
				w := string([]byte{letters[i/26], letters[i%26], letters[k]})
				c.dateLanguage("month", "1 "+w+" 2000 00:00:00 +0000")
				if !c.thorough && (i+k)%3 != 0 {
					continue
				}
				c.dateLanguage("day-name", w+", 1 Jan 2000 00:00:00 +0000")
				c.dateLanguage("zone", "1 Jan 2000 00:00:00 "+w)
			}
		}},
		section{"two-letters", fixed(26), func(c *Ctx, i int) {
			for k := 0; k < 26; k++ {
				w := string([]byte{letters[i], letters[k]})
				c.dateLanguage("zone2", "1 Jan 2000 00:00:00 "+w)
				c.dateLanguage("zone2", "1 Jan 2000 00:00:00 "+w[:1])
			}
		}},
		section{"long", fixed(8), func(c *Ctx, i int) {
			n := []int{1990, 3000, 4090, 5000}[i/2]
			s := []string{"1 Jan 2001 00:00 +0000(" + strings.Repeat("a", n) + ")", "1 Jan 2001 00:00 +0000" + strings.Repeat(" ", n/2) + "(" + strings.Repeat("b ", n/4) + ")"}[i%2]
			c.ExpectDate("long", s, ref.Date{Year: 2001, Month: 1, Day: 1, HasZone: true, Zone: "+0000"})
			c.Nontrivial(s)
		}},
		section{"digit-counts", fixed(6 * 6 * 6), func(c *Ctx, i int) {
			dg := func(n int) string { return "012345"[:n] }
			for h := 0; h < 5; h++ {
				for z := 0; z < 7; z++ {
					zz := ""
					if z > 0 {
						zz = " +" + dg(z-1)
					}
					a, b, m := i%6, i/6%6, i/36
					if (a > 2 || b > 4 || m > 3) && (h+z)%3 != 0 {
						continue
					}
					c.dateLanguage("digits", dg(a)+" Jan "+dg(b)+" "+dg(h)+":"+dg(m)+":"+dg((h+m)%4)+zz)
				}
			}
		}},
		section{"built", tiers(12000, 120000), func(c *Ctx, i int) {
			in, d := c.g.Date(i%2 == 0)
			if c.ConstructDate(in, d) {
				c.ExpectDate("must-accept", in, d)
				c.Nontrivial(in)
			}
		}},
		section{"mutated", tiers(12000, 150000), func(c *Ctx, i int) {
			in, _ := c.g.Date(i%2 == 0)
			for k := 0; k < 3; k++ {
				c.dateLanguage("mutated", c.g.MutateDate(in))
			}
		}},
		section{"soup", tiers(15000, 200000), func(c *Ctx, i int) {
			for k := 0; k < 3; k++ {
				c.dateLanguage("soup", c.g.DateSoup(4+c.rng.Intn(12)))
			}
		}},
		section{"addresses", fixed(200), func(c *Ctx, i int) {
			s, _ := c.g.Mailbox()
			c.dateLanguage("address", s)
		}},
	)

	layouts := []struct {
		layout string
		sec    bool // keeps seconds
		zone   int  // 0 numeric, 1 named, 2 none
		two    bool
	}{
		{time.RFC1123Z, true, 0, false},
		{time.RFC1123, true, 1, false},
		{time.RFC822Z, false, 0, true},
		{time.RFC822, false, 1, true},
		{"Mon, 2 Jan 2006 15:04:05 -0700", true, 0, false},
		{"2 Jan 2006 15:04:05 -0700", true, 0, false},
		{"Mon, 2 Jan 2006 15:04:05 -0700 (MST)", true, 0, false},
		{"Mon, 2 Jan 2006 15:04 -0700", false, 0, false},
		{"02 Jan 2006 15:04 -0700", false, 0, false},
		{"Mon, 02 Jan 2006 15:04:05 MST", true, 1, false},
		{"Mon, 02 Jan 2006 15:04:05", true, 2, false},
		{"2 Jan 06 15:04:05 -0700", true, 0, true},
		{"Mon,  2 Jan 2006 15:04:05 -0700", true, 0, false},
	}
	sections(&Prop{
		ID: "P12",
		Rule: "A case formats a time with one of " + fmt.Sprint(len(layouts)) + " mail layouts (RFC 1123, RFC 822, RFC 5322 with and without day name, seconds, comment) and parses it back: the same instant (to the layout's precision), " +
			"offset and, for named zones, zone name must return, and formatting the result again must give the same text. Times are random instants of years 0000-9999, in fixed zones, UTC and real locations around their transitions. Non-trivial: a distinct text.",
		MinNontrivial: fixed(20000),
		Assume:        []string{"time.Format of the Go standard library is trusted"},
	},
		section{"random", tiers(9000, 150000), func(c *Ctx, i int) {
			setLocal(c, i/16)
			r := c.rng
			lo, hi := time.Date(0, 1, 2, 0, 0, 0, 0, time.UTC).Unix(), time.Date(9999, 12, 30, 0, 0, 0, 0, time.UTC).Unix()
			u := lo + r.Int63n(hi-lo)
			if i%2 == 0 {
				u = time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + r.Int63n(70*365*86400)
			}
			t := time.Unix(u, int64(r.Intn(2)*r.Intn(1e9)))
			switch i % 4 {
			case 0:
				t = t.UTC()
			case 1:
				t = t.In(time.FixedZone("", (r.Intn(2*24*60)-24*60)*60))
			case 2:
				n := gen.ZoneNames()[r.Intn(len(gen.ZoneNames()))]
				t = t.In(time.FixedZone(n, ref.NamedZones[strings.ToLower(n)]*3600))
			case 3:
				l, err := time.LoadLocation([]string{"America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Asia/Kathmandu", "Africa/Monrovia"}[r.Intn(8)])
				if err != nil {
					l = time.UTC
				}
				t = t.In(l)
				if _, off := t.Zone(); off%60 != 0 {
					t = t.UTC() // local mean time has offsets the format cannot express
				}
			}
			for _, l := range layouts {
				c.timeBack(t, l.layout, l.sec, l.zone, l.two)
			}
		}},
		section{"every-year", fixed(1000), func(c *Ctx, i int) {
			// each year in each zone, at random times
			for y := i * 10; y < i*10+10; y++ {
				zones := gen.ZoneNames()
				if (y < 1850 || y > 2150) && !c.thorough {
					zones = []string{zones[y%len(zones)]}
				}
				for _, z := range append(zones[:len(zones):len(zones)], "") {
					l := time.FixedZone(z, (c.rng.Intn(2*24*60)-24*60+1)*60)
					if z != "" {
						l = time.FixedZone(z, ref.NamedZones[strings.ToLower(z)]*3600)
					}
					t := time.Date(y, time.Month(1+c.rng.Intn(12)), 1+c.rng.Intn(28), c.rng.Intn(24), c.rng.Intn(60), c.rng.Intn(60), 0, l)
					if z != "" {
						c.timeBack(t, time.RFC1123, true, 1, false)
						c.timeBack(t, "2 Jan 2006 15:04 MST", false, 1, false)
					}
					c.timeBack(t, time.RFC1123Z, true, 0, false)
					c.timeBack(t, time.RFC822Z, false, 0, true)
				}
			}
		}},
		section{"transitions", fixed(200), func(c *Ctx, i int) {
			setLocal(c, i)
			l, err := time.LoadLocation([]string{"America/New_York", "Europe/London", "Australia/Sydney", "America/Los_Angeles"}[i%4])
			if err != nil {
				return
			}
			t := time.Date(1970+i/4, 3, 1, 0, 30, 0, 0, l)
			for k := 0; k < 60; k++ {
				c.timeBack(t, time.RFC1123Z, true, 0, false)
				c.timeBack(t, time.RFC1123, true, 1, false)
				t = t.Add(24*time.Hour*5 + time.Hour)
			}
		}},
		section{"every-minute-of-days", fixed(60), func(c *Ctx, i int) {
			setLocal(c, i)
			t := time.Date(1999+i%3, []time.Month{12, 2, 6}[i%3], 28, 22, 0, 0, 0, time.FixedZone("", (i-30)*1800))
			for k := 0; k < 600; k++ {
				c.timeBack(t, time.RFC1123Z, true, 0, false)
				t = t.Add(7*time.Minute + 11*time.Second)
			}
		}},
	)
}

func (c *Ctx) dateLanguage(kind, in string) {
	acc, dec := c.AgreeDate(kind, in)
	if !dec {
		return
	}
	c.Nontrivial(in)
	if acc {
		c.Count("accepted."+kind, 1)
		c.Sample("%q is accepted", in)
	} else {
		c.Count("rejected."+kind, 1)
	}
}

// timeBack formats, parses and compares.
func (c *Ctx) timeBack(t time.Time, layout string, sec bool, zone int, two bool) {
	if y := t.Year(); y < 0 || y > 9999 {
		return
	}
	if two {
		if now := time.Now().Year(); t.Year() > now-1 || t.Year() <= now-98 {
			return
		}
	}
	name, off := t.Zone()
	if zone == 1 {
		if o, ok := ref.NamedZones[strings.ToLower(name)]; !ok || o*3600 != off {
			return // RFC 5322 gives this abbreviation another meaning, or none
		}
	}
	want := t.Truncate(time.Second)
	if !sec {
		want = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), 0, 0, t.Location())
		if want.Hour() != t.Hour() || !want.Truncate(time.Minute).Equal(want) || t.Sub(want) >= time.Minute || t.Before(want) {
			return // an hour that occurs twice, or an offset with seconds
		}
	}
	in := t.Format(layout)
	if zone == 2 && off != 0 {
		return
	}
	r := c.Date(in)
	if r.Panic != nil || r.Err != nil {
		c.Fail("layout", in, want.String(), r.dateString())
		return
	}
	n2, off2 := r.Time.Zone()
	if !r.Time.Equal(want) || off2 != off || zone == 1 && n2 != name {
		c.Fail("layout", in, want.String(), r.Time.String())
		return
	}
	if !strings.Contains(layout, "(MST)") {
		if back := r.Time.Format(layout); back != in {
			c.Fail("reformat", in, in, back)
		}
	}
	c.Nontrivial(in)
	c.Sample("%q", in)
}
