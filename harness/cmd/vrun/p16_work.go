package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
)

// family is an input that grows with n. degree is how its parsing work grows.
type family struct {
	name   string
	n      int
	degree int
	date   bool
	make   func(n int) string
}

func fam(name string, n, degree int, pre, unit, post string) family {
	return family{name: name, n: n, degree: degree, make: func(n int) string { return pre + strings.Repeat(unit, n) + post }}
}

func dateFam(name string, n int, pre, unit, post string) family {
	f := fam(name, n, 1, pre, unit, post)
	f.date = true
	return f
}

var workFamilies = []family{
	fam("atom", 100, 1, "", "a", "@b"),
	fam("domain", 100, 1, "a@", "b", ""),
	fam("name", 60, 1, "", "a", "<a@b>"),
	fam("words", 60, 1, "", "a ", "<a@b>"),
	fam("quoted", 100, 1, "\"", "a", "\"<a@b>"),
	fam("quoted-words", 60, 1, "\"", "a ", "\"<a@b>"),
	fam("quoted-local", 100, 1, "\"", "a", "\"@b"),
	fam("quoted-pairs", 100, 1, "\"", "\\a", "\"<a@b>"),
	fam("quoted-strings", 40, 1, "", "\"a\"", "<a@b>"),
	fam("literal", 200, 1, "a@[", "a", "]"),
	fam("non-ascii", 60, 1, "", "é", "<a@b>"),
	fam("dots", 60, 1, "", "a.", "a@b"),
	fam("domain-dots", 60, 1, "a@b", ".b", ""),
	fam("name-dots", 40, 1, "", "a.", " <a@b>"),
	fam("list", 20, 1, "", "a@b,", "a@b"),
	fam("list-names", 20, 1, "", "X <a@b>,", "a@b"),
	fam("list-quoted", 15, 1, "", "\"X, Y\" <a@b>, ", "a@b"),
	fam("list-angles", 20, 1, "", "<a@b>,", "a@b"),
	fam("list-empty-angles", 30, 1, "", "<>,", "a@b"),
	fam("list-folded", 15, 1, "", "a@b,\r\n ", "a@b"),
	fam("list-commented", 15, 1, "", "a@b(c),", "a@b"),
	fam("list-ports", 20, 1, "", "a@b:25,", "a@b"),
	fam("semicolons", 20, 1, "", "a@b;", "a@b"),
	fam("commas", 2000, 1, "", ",", "a@b"),
	fam("comma-tail", 1000, 1, "a@b", ",", ""),
	fam("group", 8, 2, "g:", "a@b,", "a@b;"),
	fam("groups", 20, 1, "", "g:a@b;,", "a@b"),
	fam("empty-groups", 40, 1, "", "g:;,", "a@b"),
	fam("group-commas", 60, 1, "g:", ",", "a@b;"),
	fam("route", 40, 1, "<", "@a,", "@a:a@b>"),
	fam("route-empty", 100, 1, "<", ",", "@a:a@b>"),
	{name: "nested-comments", n: 60, degree: 1, make: func(n int) string {
		return strings.Repeat("(", n) + strings.Repeat(")", n) + "a@b"
	}},
	{name: "nested-comments-text", n: 40, degree: 1, make: func(n int) string {
		return "a@b" + strings.Repeat("(x ", n) + strings.Repeat(" y)", n)
	}},
	fam("comment", 200, 1, "(", "a", ")a@b"),
	fam("comment-words", 60, 1, "(", "a ", ")a@b"),
	fam("comment-pairs", 60, 1, "(", "\\(", ")a@b"),
	fam("comments", 60, 1, "", "(a)", "a@b"),
	fam("spaces", 200, 1, "", " ", "a@b"),
	fam("spaces-inside", 25, 2, "a", " ", "<a@b>"),
	fam("encoded-words", 10, 1, "", "=?utf-8?Q?x?= ", "<a@b>"),
	fam("encoded-payload", 60, 1, "=?utf-8?Q?", "x", "?= <a@b>"),
	fam("encoded-bytes", 30, 1, "=?utf-8?Q?", "=C3=A9", "?= <a@b>"),
	fam("encoded-b64", 30, 1, "=?utf-8?B?", "YWJj", "?= <a@b>"),
	fam("encoded-charset", 60, 1, "=?", "x", "?Q?a?= <a@b>"),
	fam("encoded-touching", 5, 2, "", "=?=?u?q?a?=", "\r\n .<a@b>"),
	fam("equals", 60, 1, "", "=", "<a@b>"),
	fam("equals-question", 40, 1, "", "=?", "<a@b>"),
	fam("obs-local", 40, 1, "", "\"a\".", "a@b"),
	fam("reject-open-comments", 2000, 1, "", "(", ""),
	fam("reject-close-comments", 4000, 1, "", ")", ""),
	fam("reject-atom", 2000, 1, "", "a", ""),
	fam("reject-words", 1500, 1, "", "a ", ""),
	fam("reject-dots", 1500, 1, "", "a.", ""),
	fam("reject-list", 600, 1, "", "a@b,", "<"),
	fam("reject-list-bad-start", 800, 1, "<", "a@b,", ""),
	fam("reject-quoted", 1500, 1, "\"", "a ", ""),
	fam("reject-quotes", 500, 1, "", "\"", "<"),
	fam("reject-backslashes", 3000, 1, "", "\\", ""),
	fam("reject-angles", 4000, 1, "", "<", ""),
	fam("reject-ats", 4000, 1, "", "@", ""),
	fam("reject-nul", 4000, 1, "", "\x00", ""),
	fam("reject-ill-formed", 1000, 1, "", "\xff", ""),
	fam("reject-tail", 2000, 1, "a@b", " x", ""),
	fam("reject-group-starts", 2000, 1, "", "g:", ""),
	fam("reject-encoded", 1000, 1, "", "=?", ""),
	fam("reject-crlf", 2000, 1, "", "\r\n", ""),
	fam("reject-spaces", 3000, 1, "", " ", ""),
	fam("reject-literal", 2000, 1, "a@[", "a", ""),
	fam("reject-route", 1000, 1, "<", "@a,", ""),
	{name: "reject-unbalanced", n: 800, degree: 1, make: func(n int) string {
		return strings.Repeat("(", n) + strings.Repeat(")", n-1)
	}},
	dateFam("date-spaces", 300, "1", " ", "Jan 2001 00:00 GMT"),
	dateFam("date-folds", 100, "1 Jan 2001 00:00 GMT", "\r\n ", ""),
	dateFam("date-comment", 1000, "1 Jan 2001 00:00 GMT(", "a", ")"),
	dateFam("date-comments", 300, "1 Jan 2001 00:00 GMT", "(a)", ""),
	dateFam("date-comments-inside", 200, "1", "(a)", "Jan 2001 00:00 GMT"),
	dateFam("date-comment-pairs", 500, "1 Jan 2001 00:00 GMT(", "\\)", ")"),
	{name: "date-nested-comments", n: 500, degree: 1, date: true, make: func(n int) string {
		return "1 Jan 2001 00:00 GMT" + strings.Repeat("(", n) + strings.Repeat(")", n)
	}},
	dateFam("date-reject-digits", 2000, "", "1", ""),
	dateFam("date-reject-spaces", 2000, "", " ", ""),
	dateFam("date-reject-year", 1500, "1 Jan ", "2", " 00:00 GMT"),
	{name: "date-reject-comments", n: 150, degree: 2, date: true, make: func(n int) string {
		return "1 Jan 2001 00:00 GMT" + strings.Repeat("(", n)
	}},
	dateFam("date-reject-days", 1000, "", "Mon, ", ""),
	dateFam("date-reject-letters", 2000, "", "J", ""),
}

// work is how many allocations one call makes, at best.
func (c *Ctx) work(in string, date bool) (mallocs, bytes float64, ok bool) {
	mallocs, bytes = 1e18, 1e18
	var a, b runtime.MemStats
	for k := 0; k < 3; k++ {
		if k == 2 && mallocs > 5e6 { // enough: what is left to learn does not matter
			break
		}
		runtime.ReadMemStats(&a)
		var r Res
		if date {
			r = c.Date(in)
		} else {
			r = c.Addr(in)
		}
		runtime.ReadMemStats(&b)
		if r.Panic != nil {
			c.Fail("panic", in, "no panic", fmt.Sprint(r.Panic))
		}
		ok = r.Err == nil
		if k == 0 {
			continue // learns the predictions
		}
		mallocs = min(mallocs, float64(b.Mallocs-a.Mallocs))
		bytes = min(bytes, float64(b.TotalAlloc-a.TotalAlloc))
	}
	return mallocs, bytes, ok
}

// threadCPU is the CPU time of the calling thread in seconds.
func threadCPU() float64 {
	var u syscall.Rusage
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// cpu is the CPU time of one call, the best of a few.
func (c *Ctx) cpu(in string, date bool, runs int) float64 {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := 1e18
	for k := 0; k < runs; k++ {
		t := threadCPU()
		if date {
			c.Date(in)
		} else {
			c.Addr(in)
		}
		best = min(best, threadCPU()-t)
	}
	return best
}

// growth monitors how the work grows when the input doubles, twice.
func (c *Ctx) growth(f family, sizes []int, limit, perChar float64, floor float64) {
	var pm, pb, ms float64
	line := f.name + ":"
	for k, n := range sizes {
		in := f.make(n)
		m, b, ok := c.work(in, f.date)
		for again := 0; again < 3 && k > 0 && ((m+floor)/(pm+floor) > limit || (b+100*floor)/(pb+100*floor) > 5.5); again++ {
			// the library may have started a new prediction cache meanwhile
			c.Count("measured.again", 1)
			m2, b2, _ := c.work(in, f.date)
			m, b = min(m, m2), min(b, b2)
		}
		line += fmt.Sprintf(" %d bytes %.0f allocations of %.0f bytes,", len(in), m, b)
		if k == 0 {
			ms = m
			c.Count(map[bool]string{true: "families.accepted", false: "families.refused"}[ok], 1)
		}
		l := float64(len(in))
		if cap := perChar * l; f.degree == 1 && m > cap+300000 || f.degree == 2 && m > cap*l/4+300000 {
			c.Fail("too much work", in, fmt.Sprintf("at most %.0f allocations per byte (per byte² / 4 for a quadratic family)", perChar), line)
			return
		}
		// What is refused allocates a few bytes per byte² for its error: nothing beside this.
		if most := 300000 + 10000*l + 3*l*l; f.degree == 1 && !ok {
			c.st.Counters["max.refused.bytes.permille"] = max(c.st.Counters["max.refused.bytes.permille"], int(1000*b/most))
			if b > most {
				c.Fail("too many bytes", in, fmt.Sprintf("at most %.0f bytes allocated for a refused input of %d bytes", most, len(in)), line)
				return
			}
		}
		if k > 0 {
			ratio, bratio := (m+floor)/(pm+floor), (b+100*floor)/(pb+100*floor)
			if permille := int(ratio * 1000); permille > c.st.Counters["max.growth.permille.degree"+fmt.Sprint(f.degree)] {
				c.st.Counters["max.growth.permille.degree"+fmt.Sprint(f.degree)] = permille
			}
			key := "max.growth.bytes.permille.degree" + fmt.Sprint(f.degree)
			if !ok {
				key += ".refused"
			}
			c.st.Counters[key] = max(c.st.Counters[key], int(bratio*1000))
			if ratio > limit {
				c.Fail("growth", in, fmt.Sprintf("the number of allocations grows at most %.1f times when the input doubles", limit), line)
				return
			}
			if bratio > 5.5 {
				c.Fail("growth in bytes", in, "the number of bytes allocated grows at most 5.5 times when the input doubles", line)
				return
			}
		}
		pm, pb = m, b
	}
	// Work that allocates nothing shows in the time per allocation, which is
	// about constant. Far beyond any noise, and again when measured again.
	small, large := f.make(sizes[0]), f.make(sizes[len(sizes)-1])
	ts := c.cpu(small, f.date, 2)
	tl := c.cpu(large, f.date, 1)
	for k := 0; tl > 0.5+10*pm*(ts+0.002)/(ms+100); k++ {
		if k == 3 {
			c.Fail("growth in time", large, fmt.Sprintf("time in proportion to the allocations (%.3f s of CPU for the %.0f of %d bytes)", ts, ms, len(small)), fmt.Sprintf("%.3f s for %.0f", tl, pm))
			return
		}
		ts, tl = max(ts, c.cpu(small, f.date, 3)), min(tl, c.cpu(large, f.date, 1))
	}
	c.Nontrivial(f.name)
	c.Sample("%s", line)
}

func init() {
	units := []string{"a", ".", " ", ",", ";", ":", "@", "<", ">", "(", ")", "\"", "\\", "[", "]", "=?", "?=", "\r\n ", "a@b", "<a@b>", "g:", "()", "\"a\"", "1", "\r", "=?u?q?a?="}
	tails := []string{"", "a@b", "<a@b>"}
	sections(&Prop{
		ID: "P16",
		Rule: fmt.Sprintf("A case is a family of inputs that grows by doubling: %d named shapes of accepted and refused lists and dates, and every ordered pair of %d units repeated, each ASCII character repeated in 18 places. Measured, once the parser is warm: heap allocations and bytes allocated by the call "+
			"(counts, not time). The named linear families must grow linearly, everything else at most quadratically, and each call must return within a CPU budget. Non-trivial: a family that went through all its sizes.", len(workFamilies), len(units)),
		MinNontrivial: fixed(700),
		Assume:        []string{"heap allocations measure the work: the parser allocates at every step", "the second call with an input finds the predictions of the first"},
	},
		section{"families", fixed(len(workFamilies)), func(c *Ctx, i int) {
			f := workFamilies[i]
			sizes := []int{f.n, 2 * f.n, 4 * f.n}
			if c.thorough {
				sizes = append(sizes, 8*f.n)
			}
			limit := 2.5
			if f.degree == 2 {
				limit = 5.2
			}
			c.growth(f, sizes, limit, 30000, 2000)
		}},
		section{"characters", fixed(130), func(c *Ctx, i int) {
			// each character again and again, where it means something and where it does not
			ch := string(rune(i))
			if i >= 128 {
				ch = []string{"é", "😀"}[i-128]
			}
			degree, limit := 1, 2.7
			if strings.Contains("()<>,;:\"\\\r\n \t=?@.", ch) {
				degree, limit = 2, 5.5
			}
			for k, p := range [][2]string{{"", ""}, {"a@b", ""}, {"a@b>", ""}, {"<", ""}, {"a b", ""}, {"\"", ""}, {"", "<a@b>"}, {"\"", "\"<a@b>"}, {"(", ")a@b"}, {"a@", ""}, {"a@[", "]"}, {"=?u?q?", "?= <a@b>"}, {"a@b,", ",c@d"}} {
				if k > 5 && (i+k)%4 != 0 && !c.thorough {
					continue
				}
				f := fam(fmt.Sprintf("%q+%q…+%q", p[0], ch, p[1]), 0, degree, p[0], ch, p[1])
				n := 100
				if k > 5 {
					n = 24
				}
				c.growth(f, []int{n, 2 * n, 4 * n}, limit, 30000, 2000)
			}
			for _, u := range []string{ch + ",", ch + " ", ch + ";", ch + "\r\n "} {
				f := fam(fmt.Sprintf("%q…", u), 0, degree, "", u, "")
				c.growth(f, []int{100, 200, 400}, limit, 30000, 2000)
			}
			for _, p := range [][2]string{{"", ""}, {"1 Jan 2001 00:00 GMT", ""}, {"1 Jan 2001 00:00 GMT(", ""}, {"1 Jan 2001 00:00 GMT(", ")"}, {"1 Jan ", ""}} {
				f := dateFam(fmt.Sprintf("date: %q+%q…+%q", p[0], ch, p[1]), 0, p[0], ch, p[1])
				f.degree = degree
				c.growth(f, []int{100, 200, 400}, limit, 30000, 2000)
			}
		}},
		section{"unit-pairs", fixed(len(units) * len(units)), func(c *Ctx, i int) {
			u, v := units[i%len(units)], units[i/len(units)]
			f := fam(fmt.Sprintf("%q+%q", u, v), 0, 2, "", u+v, "")
			limit := 5.5
			for k, t := range tails {
				if (i+k)%3 != 0 && !c.thorough {
					continue
				}
				f.name += fmt.Sprintf("+%q", t)
				f.make = func(n int) string { return strings.Repeat(u+v, n) + t }
				sizes := []int{4, 8, 16}
				if c.thorough {
					sizes = append(sizes, 32)
				}
				c.growth(f, sizes, limit, 30000, 20000)
			}
		}},
	)
}
