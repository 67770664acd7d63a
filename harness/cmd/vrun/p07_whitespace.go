package main

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/ref"
)

// fillers are the comments and whitespace a slot is filled with.
var fillers = []string{
	" ", "\t", "  \t ", "\r\n ", " \r\n\t", "()", "(c)", " (c) ", "(c)(d)", "((n)(n(n)))", "(\\))", "(\\()", "(\\\\)", "(\\\"\")", "(a@b, <c@d>; g:e@f;)",
	"(=?utf-8?Q?x?=)", "(\"unbalanced)", "(é 😀)", "( )", "(\r\n c)", "(a\r\n b)", "(\x01\x7f)", "(\\\x00)", "(\\\r\\\n)", "([)", "(<)", "(,;:)", " (c)\r\n (d)\t", "(Mon, 1 Jan 2000 00:00:00 +0000)", "(\t(\t)\t)",
}

// skeletons: □ is an optional slot, ■ one that must not be empty, ⊔ one where
// only whitespace may stand.
var skeletons = []struct {
	text string
	want []ref.Addr
}{
	{"□a□@□b□", one("", "a@b")},
	{"□a.b□@□[1.2]□", one("", "a.b@[1.2]")},
	{"□\"q r\"□@□b□", one("", "q r@b")},
	{"□a□.□\"q\"□.□c□@□b□", one("", "a.q.c@b")},
	{"□<□a□@□b□>□", one("", "a@b")},
	{"□J■D□<□a□@□b□>□", one("J D", "a@b")},
	{"□\"J\"□\"D\"□<□a□@□b□>□", one("J D", "a@b")},
	{"□J□.□D□@□x□<a@b>", one("J.D@x", "a@b")},
	{"□=?utf-8?Q?x?=□=?utf-8?Q?y?=□<□a@b□>□", one("xy", "a@b")},
	{"□J■=?utf-8?Q?x?=■D□<a@b>", one("J x D", "a@b")},
	{"□a@b□,□c@d□,□<e@f>□", append(append(one("", "a@b"), one("", "c@d")...), one("", "e@f")...)},
	{"□a@b□;□N□<c@d>□", append(one("", "a@b"), one("N", "c@d")...)},
	{"□g□:□a@b□,□<c@d>□;□", append(one("", "a@b"), one("", "c@d")...)},
	{"□g■h□:□;□,□a@b□", one("", "a@b")},
	{"□,□a@b□,□,□c@d□,□", append(one("", "a@b"), one("", "c@d")...)},
	{"□N□<□@r□,□@s□:□a□@□b□>□", one("N", "a@b")},
	{"□N□<>□", one("N", "")},
	{"□a@b:25", one("", "a@b:25")},
}

var dateSkeletons = []struct {
	text string
	want ref.Date
}{
	{"□Mon□,□1■Jan⊔2000⊔1:02□:□03□", ref.Date{Year: 2000, Month: 1, Day: 1, Hour: 1, Min: 2, Sec: 3, Zone: "UTC"}},
	{"□21■Nov⊔1997⊔09:55□:□06⊔-0600□", ref.Date{Year: 1997, Month: 11, Day: 21, Hour: 9, Min: 55, Sec: 6, Offset: -21600, Zone: "-0600", HasZone: true}},
	{"□Fri□,□21□Nov□97■9□:□55□:□06□GMT□", ref.Date{Year: 97, TwoDigit: true, Month: 11, Day: 21, Hour: 9, Min: 55, Sec: 6, Zone: "GMT", HasZone: true}},
	{"□1■Jul⊔2003⊔10:52□+0200□", ref.Date{}},
}

func init() {
	dateSkeletons = dateSkeletons[:3]
	type slotCase struct{ sk, slot int }
	slots := func(text string) int {
		return strings.Count(text, "□") + strings.Count(text, "■") + strings.Count(text, "⊔")
	}
	// fill gives slot k (or all, k < 0) the filler, the others the minimum.
	fill := func(text string, k int, f func(kind rune) string) string {
		var b strings.Builder
		i := 0
		for _, r := range text {
			if r != '□' && r != '■' && r != '⊔' {
				b.WriteRune(r)
				continue
			}
			if i == k || k < 0 {
				b.WriteString(f(r))
			} else if r != '□' {
				b.WriteByte(' ')
			}
			i++
		}
		return b.String()
	}
	var cases, dcases []slotCase
	for s, sk := range skeletons {
		for k := -1; k < slots(sk.text); k++ {
			cases = append(cases, slotCase{s, k})
		}
	}
	for s, sk := range dateSkeletons {
		for k := -1; k < slots(sk.text); k++ {
			dcases = append(dcases, slotCase{s, k})
		}
	}
	ok := func(kind rune, f string) bool {
		return kind != '⊔' || !strings.Contains(f, "(")
	}
	folds := sweepSizes(40, 260)
	var longs []int
	for _, n := range sweepSizes(0, 1025) {
		if n > 260 {
			longs = append(longs, n)
		}
	}
	dateRemarks := []string{"AM", "PM", "am", "pm", "a.m.", "BC", "AD", "CE", "st", "nd", "rd", "th", "noon", "midnight", "DST", "summer time", "Daylight", "+0000", "-0000", "+0100", "-0800", "+0530", "0100", "UTC+2", "GMT+1", "GMT-5", "Z", "A", "M", "Y", "BST", "CET", "CEST", "JST", "IST", "AEST", "MSK", "HST", "AKST",
		"Pacific Standard Time", "Eastern Daylight Time", "CEST (Central European Summer Time)", "local", "sent", "20:00", "12:34:56", ":30", "1:2", "60", "Monday", "February", "1/2/2003", "2003-02-01", "1970-01-01T00:00:00Z", "0", "1e3", "-1", "approx.", "Heisei 9", "UTC", "utc", "gmt", "est"}
	for _, z := range gen.ZoneNames() {
		dateRemarks = append(dateRemarks, z)
	}
	for m := 1; m <= 12; m++ {
		dateRemarks = append(dateRemarks, gen.MonthName(m), gen.DayName(m%7))
	}
	for y := 1890; y <= 2110; y++ {
		dateRemarks = append(dateRemarks, fmt.Sprint(y))
	}
	for n := 0; n < 100; n++ {
		dateRemarks = append(dateRemarks, fmt.Sprintf("%02d", n))
	}
	remarks := []string{"John Smith", "J. D.", "x@y", "<x@y>", "\"X Y\"", ":25", "25", "[1.2.3.4]", ".", "@", "dot", "at", "no spam", "via x@y", "deleted", "null", ",", ";", "g:", "=?utf-8?q?J=20D?=", "=?x-c?b?YQ==?=", "a", "b", "J", "D", "c", "x", "q r", "a@b", "q", "<>", "\\\"", "mailto:x@y", "http://x/", "REMOVE", "1.2", "_", "*", "ext. 5", "work", "(home)", "\\(", "é", "ü@é"}
	sections(&Prop{
		ID: "P07",
		Rule: "A case takes a skeleton with slots and compares the result for different fillings: each of " + fmt.Sprint(len(fillers)) + " comments and whitespace runs in every single slot and in all slots of " +
			fmt.Sprint(len(skeletons)) + " address and " + fmt.Sprint(len(dateSkeletons)) + " date skeletons, sweeps over comment length, nesting and number, and four random fillings (none, whitespace, mixed, comments everywhere) of random templates. " +
			"The value is known by construction and must be the same for all. Non-trivial: a distinct filled input.",
		MinNontrivial: fixed(1000),
	},
		dictComments(),
		section{"slots", fixed(len(cases)), func(c *Ctx, i int) {
			sk := skeletons[cases[i].sk]
			for n, f := range fillers {
				if !c.thorough && cases[i].slot >= 0 && (n+i)%3 != 0 {
					continue
				}
				in := fill(sk.text, cases[i].slot, func(rune) string { return f })
				if c.Construct(in, sk.want, nil, 1500) {
					c.ExpectAddrs("slot", in, sk.want)
					c.Nontrivial(in)
				}
			}
		}},
		section{"date-slots", fixed(len(dcases)), func(c *Ctx, i int) {
			sk := dateSkeletons[dcases[i].sk]
			for _, f := range fillers {
				for _, second := range fillers[:6] {
					in := fill(sk.text, dcases[i].slot, func(kind rune) string {
						if !ok(kind, f) {
							if kind == '⊔' && strings.Contains(second, "(") {
								return " "
							}
							return second
						}
						return f
					})
					m, acc, _ := ref.DateTime(in)
					if !acc {
						// one field takes either whitespace or a comment-bearing gap on both sides
						c.Count("date-slot-not-in-language", 1)
						continue
					}
					if m != sk.want {
						c.Broken("date skeleton %q: %s", in, dateWant(m))
						continue
					}
					c.ExpectDate("date-slot", in, sk.want)
					c.Nontrivial(in)
				}
			}
		}},
		section{"meaningful-date-comments", fixed(len(dateRemarks)), func(c *Ctx, i int) {
			// comments that could be taken for a part of the date
			for s, sk := range dateSkeletons {
				for k := 0; k < slots(sk.text); k++ {
					for n, f := range []string{"(" + dateRemarks[i] + ")", " (" + dateRemarks[i] + ") ", "(" + dateRemarks[i] + " )(" + dateRemarks[(i+s+k)%len(dateRemarks)] + ")"} {
						if n > 0 && (i+k)%2 == n-1 && !c.thorough {
							continue
						}
						in := fill(sk.text, k, func(kind rune) string {
							if ok(kind, f) {
								return f
							}
							return " "
						})
						m, acc, _ := ref.DateTime(in)
						if !acc {
							c.Count("date-slot-not-in-language", 1)
							continue
						}
						if m != sk.want {
							c.Broken("date skeleton %q: %s", in, dateWant(m))
							continue
						}
						c.ExpectDate("meaningful-date-comment", in, sk.want)
						c.Nontrivial(in)
					}
				}
			}
		}},
		section{"meaningful-comments", fixed(len(remarks)), func(c *Ctx, i int) {
			// comments that could be taken for a part of the address
			for s, sk := range skeletons {
				for k := 0; k < slots(sk.text); k++ {
					if (i+s+k)%3 != 0 && !c.thorough {
						continue
					}
					in := fill(sk.text, k, func(rune) string { return "(" + remarks[i] + ")" })
					if c.Construct(in, sk.want, nil, 1500) {
						c.ExpectAddrs("meaningful-comment", in, sk.want)
						c.Nontrivial(in)
					}
				}
			}
		}},
		section{"comment-size", fixed(len(folds)), func(c *Ctx, i int) {
			n := folds[len(folds)-1-i]
			for k, f := range []string{
				"(" + rep(n) + ")",
				strings.Repeat("(", n+1) + strings.Repeat(")", n+1),
				strings.Repeat("(c)", n+1),
				"(" + strings.Repeat("\\)", n) + ")",
				"(" + strings.Repeat("(x)", n) + ")",
				strings.Repeat(" ", n+1),
				strings.Repeat(" \t", n/2+1) + "\r\n" + strings.Repeat(" ", n+1),
				"(" + strings.Repeat("a\r\n ", n) + "b)",
				"(" + strings.Repeat("é", n) + "😀)",
			} {
				if n > 70 && (k+i)%3 != 0 {
					continue // the long ones in turns
				}
				sk := skeletons[[]int{0, 5, 12}[(i+k)%3]]
				slot := (i*3 + k) % slots(sk.text)
				in := fill(sk.text, slot, func(rune) string { return f })
				c.ExpectAddrs("comment-size", in, sk.want)
				c.Nontrivial(in)
				d := dateSkeletons[i%2]
				in = fill(d.text, slots(d.text)-1, func(rune) string { return f })
				c.ExpectDate("date-comment-size", in, d.want)
			}
		}},
		section{"long-comments", fixed(len(longs)), func(c *Ctx, i int) {
			n := longs[len(longs)-1-i]
			for k, f := range []string{"(" + rep(n) + ")", "(" + strings.Repeat("x ", n/2) + ")", strings.Repeat(" ", n), "\t\r\n" + strings.Repeat(" ", n)} {
				if k == 3 && n > 600 || (k+i)%2 == 1 {
					continue
				}
				for _, s := range []int{i % 2, 9} {
					sk := skeletons[s]
					slot := []int{0, slots(sk.text) - 1}[(i+k)%2]
					in := fill(sk.text, slot, func(rune) string { return f })
					c.ExpectAddrs("long-comment", in, sk.want)
					c.Nontrivial(in)
				}
				for _, d := range dateSkeletons {
					in := fill(d.text, []int{0, slots(d.text) - 1}[k%2], func(rune) string { return f })
					c.ExpectDate("long-date-comment", in, d.want)
					c.Nontrivial(in)
				}
			}
		}},
		section{"templates", tiers(450, 8000), func(c *Ctx, i int) {
			c.g.Template = true
			c.g.Plain = i%3 == 0
			var tmpl string
			var want []ref.Addr
			switch i % 4 {
			case 0:
				tmpl, want = c.g.List(1 + c.rng.Intn(2))
			case 1:
				tmpl, want = c.g.Group(c.rng.Intn(3), false)
			default:
				var m ref.Addr
				tmpl, m = c.g.Mailbox()
				want = []ref.Addr{m}
			}
			for level := 0; level <= 3; level++ {
				in := c.g.Fill(tmpl, level)
				if !c.Construct(in, want, nil, 1500) {
					return
				}
				c.ExpectAddrs(fmt.Sprintf("template-level-%d", level), in, want)
				c.Nontrivial(in)
				c.Sample("%q -> %s", in, fmtWant(want))
			}
		}},
		section{"date-templates", tiers(3000, 60000), func(c *Ctx, i int) {
			c.g.Template = true
			tmpl, d := c.g.Date(i%2 == 0)
			for level := 0; level <= 3; level++ {
				in := c.g.Fill(tmpl, level)
				if !c.ConstructDate(in, d) {
					return
				}
				c.ExpectDate(fmt.Sprintf("date-template-level-%d", level), in, d)
				c.Nontrivial(in)
			}
		}},
	)
	_ = gen.MarkOpt
}
