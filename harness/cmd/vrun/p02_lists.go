package main

import (
	"fmt"
	"strings"

	"vharness/ref"
)

// numbered is the i-th of a series of distinct mailboxes in one of several
// spellings.
func numbered(i, form int) (string, ref.Addr) {
	a := fmt.Sprintf("u%d@h%d", i, i%7)
	switch form % 5 {
	case 0:
		return a, ref.Addr{Address: a}
	case 1:
		return "<" + a + ">", ref.Addr{Address: a}
	case 2:
		return fmt.Sprintf("N%d <%s>", i, a), ref.Addr{Name: fmt.Sprintf("N%d", i), Address: a}
	case 3:
		return fmt.Sprintf("\"n%d, x\"<%s>", i, a), ref.Addr{Name: fmt.Sprintf("n%d, x", i), Address: a}
	}
	return fmt.Sprintf("=?utf-8?q?e%d?= <%s>", i, a), ref.Addr{Name: fmt.Sprintf("e%d", i), Address: a}
}

func join(n int, sep func(i int) string, form func(i int) int) (string, []ref.Addr) {
	var b strings.Builder
	var want []ref.Addr
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep(i))
		}
		s, a := numbered(i, form(i))
		b.WriteString(s)
		want = append(want, a)
	}
	return b.String(), want
}

var separators = []string{",", ";", ", ", "; ", " ,", ",\r\n ", ",,", ", ,", " , (c) , "}

// notableElements are elements that might be treated specially, alone or next to each other.
var notableElements = []struct {
	src   string
	group bool
	want  []ref.Addr
}{
	{"<>", false, one("", "")}, {"N <>", false, one("N", "")}, {"\"\" <>", false, one("", "")}, {"\"\" <a@b>", false, one("", "a@b")}, {"a@b", false, one("", "a@b")}, {"<a@b>", false, one("", "a@b")},
	{"A <a@b>", false, one("A", "a@b")}, {"\" \" <a@b>", false, one(" ", "a@b")}, {"a@b <a@b>", false, one("a@b", "a@b")}, {"\"\"@b", false, one("", "@b")}, {"\"a\"@b", false, one("", "a@b")}, {"A@B", false, one("", "A@B")},
	{"a@b.", false, one("", "a@b.")}, {"a@[]", false, one("", "a@[]")}, {"<@r:a@b>", false, one("", "a@b")}, {"=?utf-8?q?A?= <a@b>", false, one("A", "a@b")}, {"g:;", true, nil}, {"g:<>;", true, one("", "")}, {"g:a@b;", true, one("", "a@b")},
	{"(c) a@b (c)", false, one("", "a@b")}, {"\"a,b\" <c@d>", false, one("a,b", "c@d")}, {"\"<a@b>\" <c@d>", false, one("<a@b>", "c@d")}, {"a@b:25", false, one("", "a@b:25")},
}

func init() {
	var sizes []int
	for _, n := range sweepSizes(34, 1001) {
		switch n {
		case 72, 73, 75, 77, 78, 79, 199, 253, 254, 299, 320, 321, 499, 511, 600, 800, 996, 998, 999:
			continue // little to expect there, and long lists cost seconds
		}
		sizes = append(sizes, n)
	}
	gsizes := sweepSizes(24, 66)
	sections(&Prop{
		ID: "P02",
		Rule: "An input is a list of distinct numbered mailboxes or a randomly built list with groups; the expected sequence is known by construction. " +
			"Sizes are swept (0..34, then around powers of two and round numbers up to 1001; groups up to 66 members; up to 40 groups), separators are enumerated, " +
			"and for random lists A and B the result of \"A,B\" must be the concatenation. Non-trivial: a distinct input with at least 2 mailboxes.",
		MinNontrivial: fixed(300),
	},
		section{"large-group", fixed(1), func(c *Ctx, _ int) {
			// more than 128 members; single commas cost quadratic time
			c.cpuLimit.Store(400)
			defer c.cpuLimit.Store(90)
			src, want := join(131, func(int) string { return "," }, func(int) int { return 0 })
			c.list("large-group", "g:"+src+";", want)
		}},
		section{"double-comma-group", fixed(len(sizes)), func(c *Ctx, i int) {
			n := sizes[len(sizes)-1-i]
			if n == 0 {
				return
			}
			form := 0
			if n < 130 {
				form = i + 2
			}
			src, want := join(n, func(int) string { return ",," }, func(int) int { return form })
			if n <= 520 || c.thorough {
				c.list("double-comma-group", "g:"+src+";", want)
			}
			if n <= 34 {
				s0, a0 := numbered(900, i)
				c.list("double-comma-group", "g:"+src+";,"+s0+",h:"+s0+";", append(append([]ref.Addr{}, want...), a0, a0))
			}
		}},
		section{"size", fixed(len(sizes)), func(c *Ctx, i int) {
			n := sizes[len(sizes)-1-i]
			if n == 0 {
				return
			}
			sep := separators[i%4]
			form := 0
			if n < 130 {
				form = i
			}
			src, want := join(n, func(int) string { return sep }, func(int) int { return form })
			c.list("size", src, want)
		}},
		section{"size-in-group", fixed(len(gsizes)), func(c *Ctx, i int) {
			n := gsizes[len(gsizes)-1-i]
			src, want := join(n, func(int) string { return "," }, func(k int) int { return i * k % 5 })
			c.list("group-size", "Grp:"+src+";", want)
			if n <= 34 {
				c.list("group-open", "Grp:"+src, want)
				s0, a0 := numbered(900, i)
				c.list("group-then-mailbox", "Grp:"+src+";,"+s0, append(append([]ref.Addr{}, want...), a0))
				c.list("mailbox-then-group", s0+", Grp:"+src+";", append([]ref.Addr{a0}, want...))
			}
		}},
		section{"many-groups", fixed(40), func(c *Ctx, i int) {
			var parts []string
			var want []ref.Addr
			k := 0
			for g := 0; g <= i; g++ {
				n := (g*7 + i) % 4
				var ms []string
				for m := 0; m < n; m++ {
					s, a := numbered(k, g+m)
					k++
					ms = append(ms, s)
					want = append(want, a)
				}
				parts = append(parts, fmt.Sprintf("G%d:%s;", g, strings.Join(ms, ",")))
				if g%3 == 1 {
					s, a := numbered(k, g)
					k++
					parts = append(parts, s)
					want = append(want, a)
				}
			}
			c.list("many-groups", strings.Join(parts, ", "), want)
		}},
		section{"separators", fixed(len(separators) * len(separators) * 2), func(c *Ctx, i int) {
			a, b := separators[i%len(separators)], separators[i/len(separators)%len(separators)]
			if i >= len(separators)*len(separators) {
				// leading and trailing empty elements need the comma form
				if strings.Contains(a+b, ";") {
					return
				}
				src, want := join(3, func(int) string { return b }, func(k int) int { return i + k })
				c.list("empty-ends", strings.TrimLeft(a, " ")+src+a, want)
				return
			}
			if mixed := a + b; strings.Contains(mixed, ";") && (strings.Contains(mixed, ",,") || strings.Contains(mixed, ", ,") || strings.Contains(mixed, ", (c)")) {
				return // empty elements are only allowed between commas
			}
			src, want := join(4, func(k int) string {
				if k%2 == 0 {
					return a
				}
				return b
			}, func(k int) int { return i + k })
			c.list("separators", src, want)
		}},
		section{"empty-elements", fixed(40), func(c *Ctx, i int) {
			commas := strings.Repeat(",", i)
			s, a := numbered(1, i)
			t, b := numbered(2, i+1)
			c.list("empty-elements", commas+s+","+commas+t+commas, []ref.Addr{a, b})
			c.list("empty-elements-in-group", "g:"+commas+s+","+commas+t+commas+";", []ref.Addr{a, b})
			c.list("empty-group", "g:"+commas+";", nil)
			c.list("empty-groups", "g:"+commas+";,"+s+",h:;", []ref.Addr{a})
		}},
		section{"duplicates", fixed(60), func(c *Ctx, i int) {
			// the same mailbox again, exactly or nearly, is reported again
			var parts []string
			var want []ref.Addr
			n := 2 + i%7
			for k := 0; k < n; k++ {
				switch c.rng.Intn(5) {
				case 0:
					parts, want = append(parts, "dup@h"), append(want, ref.Addr{Address: "dup@h"})
				case 1:
					parts, want = append(parts, "<dup@h>"), append(want, ref.Addr{Address: "dup@h"})
				case 2:
					parts, want = append(parts, "Dup <dup@h>"), append(want, ref.Addr{Name: "Dup", Address: "dup@h"})
				case 3:
					parts, want = append(parts, "DUP@H"), append(want, ref.Addr{Address: "DUP@H"})
				case 4:
					parts, want = append(parts, "g:dup@h,dup@h;"), append(want, ref.Addr{Address: "dup@h"}, ref.Addr{Address: "dup@h"})
				}
			}
			c.list("duplicates", strings.Join(parts, ","), want)
		}},
		section{"neighbours", fixed(len(notableElements) * len(notableElements)), func(c *Ctx, i int) {
			// every element after every other, and after two of them
			n := len(notableElements)
			a, b := notableElements[i%n], notableElements[i/n]
			two := append(append([]ref.Addr{}, a.want...), b.want...)
			c.list("neighbours", a.src+","+b.src, two)
			for k := 0; k < n; k++ {
				if x := notableElements[k]; c.thorough || (k+i)%3 == 0 {
					c.list("neighbours", a.src+", "+b.src+",\t"+x.src, append(append([]ref.Addr{}, two...), x.want...))
				}
				if !a.group && !b.group && k < 2 {
					c.list("neighbours-in-group", "G:"+a.src+","+b.src+[]string{";", ""}[k], two)
				}
			}
		}},
		section{"shapes", fixed(4 * 4 * 4 * 4), func(c *Ctx, i int) {
			// every sequence of up to four elements: mailbox, empty group, group of one, group of two
			var parts []string
			var want []ref.Addr
			k := 0
			add := func(n int) string {
				var ms []string
				for ; n > 0; n-- {
					s, a := numbered(k, k+i)
					k++
					ms = append(ms, s)
					want = append(want, a)
				}
				return strings.Join(ms, ",")
			}
			for v, n := i, 0; n < 4; n, v = n+1, v/4 {
				switch v % 4 {
				case 0:
					parts = append(parts, add(1))
				case 1:
					parts = append(parts, "e:;")
				case 2:
					parts = append(parts, "o:"+add(1)+";")
				case 3:
					parts = append(parts, "\"t\" x: "+add(2)+" ;")
				}
			}
			sep := []string{",", ";", ", ", " ; "}[i%4]
			c.list("shapes", strings.Join(parts, sep), want)
		}},
		section{"random", tiers(600, 12000), func(c *Ctx, i int) {
			src, want := c.g.List(1 + c.g.Size(3, 12))
			if c.Construct(src, want, nil, 1500) {
				c.list("random", src, want)
			}
		}},
		section{"concat", tiers(160, 2500), func(c *Ctx, i int) {
			// [A,B] = [A]+[B]; A's last group must be closed for this to be one list
			c.g.Plain = c.rng.Intn(3) == 0
			var srcs []string
			var all []ref.Addr
			for k := 0; k < 3; k++ {
				var s string
				var a []ref.Addr
				if c.rng.Intn(3) == 0 {
					s, a = c.g.Group(c.rng.Intn(4), true)
				} else {
					s, m := c.g.Mailbox()
					a = []ref.Addr{m}
					srcs, all = append(srcs, s), append(all, a...)
					continue
				}
				srcs, all = append(srcs, s), append(all, a...)
			}
			whole := strings.Join(srcs, ",")
			if !c.Construct(whole, all, nil, 1500) {
				return
			}
			var sum []ref.Addr
			for _, s := range srcs {
				r := c.Addr(s)
				if r.Panic != nil || r.Err != nil {
					c.Fail("concat", s, "accepted: it is an element of the list "+fmt.Sprintf("%q", whole), r.addrString())
					return
				}
				sum = append(sum, toWant(r.Addrs)...)
			}
			c.list("concat", whole, sum)
			if fmtWant(sum) != fmtWant(all) {
				c.Fail("concat-elements", whole, fmtWant(all), fmtWant(sum))
			}
		}},
	)
}

// list monitors one list and records what was seen.
func (c *Ctx) list(kind, src string, want []ref.Addr) {
	c.ExpectAddrs(kind, src, want)
	if len(want) >= 2 {
		c.Nontrivial(src)
	}
	c.Count("mailboxes", len(want))
	if n := len(want); n > c.st.Counters["max.mailboxes"] {
		c.st.Counters["max.mailboxes"] = n
	}
	c.Sample("%q -> %d mailboxes", src, len(want))
}
