package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// clean monitors one input through both functions: each returns, without
// panicking, either a result or an error, and has no other effect.
func (c *Ctx) clean(kind, in string) {
	before := c.outputSize()
	r := c.Addr(in)
	c.count(r.Err == nil)
	switch {
	case r.Panic != nil:
		c.Fail(kind+": panic", in, "no panic", fmt.Sprint(r.Panic))
	case r.Err != nil && len(r.Addrs) != 0:
		c.Fail(kind+": result and error", in, "no addresses next to an error", r.addrString())
	case r.Err != nil && strings.TrimSpace(r.Err.Error()) == "":
		c.Fail(kind+": empty error", in, "an error that says something", r.addrString())
	case r.Err == nil:
		for _, a := range r.Addrs {
			if a == nil {
				c.Fail(kind+": nil address", in, "no nil entries", r.addrString())
				break
			}
		}
		if strings.Trim(in, " \t\r\n") == "" && in != "" {
			c.Fail(kind+": blank accepted", in, "an error: the input holds no address", r.addrString())
		}
	}
	d := c.Date(in)
	c.count(d.Err == nil)
	switch {
	case d.Panic != nil:
		c.Fail(kind+": panic", in, "no panic", fmt.Sprint(d.Panic))
	case d.Err != nil && !d.Time.IsZero():
		c.Fail(kind+": result and error", in, "no time next to an error", d.Time.String())
	case d.Err != nil && strings.TrimSpace(d.Err.Error()) == "":
		c.Fail(kind+": empty error", in, "an error that says something", d.dateString())
	case d.Err == nil && in != "" && !strings.ContainsAny(in, "0123456789"):
		c.Fail(kind+": date from nothing", in, "an error: the input holds no digits", d.dateString())
	}
	if after := c.outputSize(); after != before {
		c.Fail(kind+": output", in, "nothing is written to stdout or stderr", c.outputFrom(before))
	}
	c.Nontrivial(in)
	c.Sample("%q: list %v, date %v", in, r.Err == nil, d.Err == nil)
}

func (c *Ctx) count(ok bool) {
	if ok {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
}

func (c *Ctx) outputSize() int64 {
	if c.quiet == nil {
		return 0
	}
	st, err := c.quiet.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}

func (c *Ctx) outputFrom(at int64) string {
	b := make([]byte, 2000)
	n, _ := c.quiet.ReadAt(b, at)
	return fmt.Sprintf("%q", b[:n])
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// leaks monitors what a stretch of calls leaves running or open.
func (c *Ctx) leaks(f func()) {
	g, files := runtime.NumGoroutine(), openFiles()
	f()
	n := runtime.NumGoroutine()
	for k := 0; k < 100 && n > g; k++ {
		time.Sleep(20 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	if n > g {
		buf := make([]byte, 1<<16)
		c.Fail("goroutines left", "", fmt.Sprintf("%d goroutines, as before", g), fmt.Sprintf("%d\n%s", n, buf[:runtime.Stack(buf, true)]))
	}
	if m := openFiles(); m > files {
		c.Fail("files left open", "", fmt.Sprint(files), fmt.Sprint(m))
	}
	c.Count("leak.checks", 1)
}

// hostile are shapes that break parsers: n copies of something around nothing.
var hostile = []struct {
	name string
	make func(n int) string
	max  int // beyond this the accepted form costs too much time
}{
	{"open-comments", func(n int) string { return strings.Repeat("(", n) }, 20000},
	{"close-comments", func(n int) string { return strings.Repeat(")", n) }, 20000},
	{"nested-comments", func(n int) string { return strings.Repeat("(", n) + strings.Repeat(")", n) + "a@b" }, 700},
	{"nested-comments-open", func(n int) string { return strings.Repeat("(", n) + strings.Repeat(")", n-1) + "a@b" }, 20000},
	{"nested-comments-date", func(n int) string {
		return "1 Jan 2001 00:00 GMT" + strings.Repeat("(", n) + strings.Repeat(")", n)
	}, 700},
	{"open-angles", func(n int) string { return strings.Repeat("<", n) }, 20000},
	{"close-angles", func(n int) string { return "a@b" + strings.Repeat(">", n) }, 20000},
	{"open-brackets", func(n int) string { return "a@" + strings.Repeat("[", n) }, 20000},
	{"brackets", func(n int) string { return "a@" + strings.Repeat("[]", n) }, 10000},
	{"quotes", func(n int) string { return strings.Repeat("\"", n) }, 4000},
	{"backslashes", func(n int) string { return strings.Repeat("\\", n) }, 20000},
	{"quoted-backslashes", func(n int) string { return "\"" + strings.Repeat("\\", n) }, 6000},
	{"commas", func(n int) string { return strings.Repeat(",", n) }, 20000},
	{"commas-address", func(n int) string { return strings.Repeat(",", n) + "a@b" }, 1500},
	{"semicolons", func(n int) string { return strings.Repeat(";", n) }, 20000},
	{"semicolons-group", func(n int) string { return "g:" + strings.Repeat(";", n) }, 1500},
	{"group-starts", func(n int) string { return strings.Repeat("g:", n) }, 10000},
	{"empty-groups", func(n int) string { return strings.Repeat("g:;,", n) + "a@b" }, 500},
	{"ats", func(n int) string { return strings.Repeat("@", n) }, 20000},
	{"routes", func(n int) string { return "<" + strings.Repeat("@a,", n) + ":a@b>" }, 500},
	{"routes-open", func(n int) string { return "<" + strings.Repeat("@a,", n) }, 3000},
	{"dots", func(n int) string { return strings.Repeat(".", n) + "@b" }, 20000},
	{"dot-words", func(n int) string { return strings.Repeat("a.", n) + "a@b" }, 600},
	{"spaces", func(n int) string { return strings.Repeat(" ", n) }, 20000},
	{"folds", func(n int) string { return strings.Repeat("\r\n ", n) }, 8000},
	{"folds-address", func(n int) string { return strings.Repeat("\r\n ", n) + "a@b" }, 400},
	{"newlines", func(n int) string { return strings.Repeat("\n", n) }, 20000},
	{"crlfs", func(n int) string { return strings.Repeat("\r\n", n) }, 20000},
	{"nul", func(n int) string { return strings.Repeat("\x00", n) }, 20000},
	{"ff", func(n int) string { return strings.Repeat("\xff", n) }, 10000},
	{"astral", func(n int) string { return strings.Repeat("😀", n) }, 5000},
	{"bom", func(n int) string { return strings.Repeat("\ufeff", n) }, 5000},
	{"combining", func(n int) string { return "a" + strings.Repeat("\u0301", n) + "@b" }, 1000},
	{"letters", func(n int) string { return strings.Repeat("a", n) }, 20000},
	{"letters-space", func(n int) string { return strings.Repeat("a ", n) }, 5000},
	{"digits", func(n int) string { return strings.Repeat("1", n) }, 20000},
	{"digits-date", func(n int) string { return "1 Jan " + strings.Repeat("1", n) + " 00:00 GMT" }, 800},
	{"encoded-open", func(n int) string { return strings.Repeat("=?", n) }, 5000},
	{"encoded-words", func(n int) string { return strings.Repeat("=?utf-8?Q?x?= ", n) + "<a@b>" }, 60},
	{"encoded-marks", func(n int) string { return "=?" + strings.Repeat("?", n) + "= <a@b>" }, 700},
	{"encoded-payload", func(n int) string { return "=?utf-8?Q?" + strings.Repeat("=C3", n) + "?= <a@b>" }, 500},
	{"encoded-b64", func(n int) string { return "=?utf-8?B?" + strings.Repeat("w", n) + "?= <a@b>" }, 1000},
	{"spaces-in-quotes", func(n int) string { return "\"" + strings.Repeat(" ", n) + "\"<a@b>" }, 1200},
	{"spaces-date", func(n int) string { return "1" + strings.Repeat(" ", n) + "Jan 2001 00:00 GMT" }, 2000},
}

func init() {
	bad := []string{"\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xc0\x80", "\xf0\x9f\x98", "\x80"}
	bytes1 := tiers(256, 256)
	sections(&Prop{
		ID: "P15",
		Rule: "An input goes through both functions: all strings of one and two bytes, all single bytes in 12 positions of valid inputs, token soup, damaged valid inputs, random bytes, ill-formed UTF-8, truncations at every byte, and " +
			fmt.Sprint(len(hostile)) + " hostile shapes up to 20000 repetitions. Monitors: no panic or crash, returns within a CPU budget, an error excludes a result and says something, no nil entries, nothing written to stdout/stderr, " +
			"no goroutine or file left behind. Non-trivial: a distinct input.",
		MinNontrivial: fixed(5000),
	},
		dictLanguage([]string{"a@b", "\"q\" <a@[b]>", "g:J.D <a@b>,c@d;", "=?utf-8?Q?x?= <a@b>", "Mon, 1 Jan 2001 00:00:00 +0000", "(c)a@b,<@r:a@b>", "1 Jan 01 0:0 GMT(c)", "=?x?b?eA==?=<a@b:1>"}, func(c *Ctx, s string) { c.clean("dictionary", s) }),
		scaled(1500, false, func(c *Ctx, f family, s string) { c.clean("scaled", s) }),
		scaled(3000, true, func(c *Ctx, f family, s string) { c.clean("scaled", s) }),
		section{"one-byte", bytes1, func(c *Ctx, i int) {
			b := string([]byte{byte(i)})
			c.leaks(func() {
				for _, in := range []string{b, b + b, b + "a@b", "a@b" + b, "a" + b + "@c", "a@" + b, "a@[" + b + "]", "\"" + b + "\"@c", "\"\\" + b + "\"@c", "(" + b + ")a@b", "N" + b + "<a@b>", "=?utf-8?Q?" + b + "?=<a@b>", "1 Jan 2001 00:00 " + b, "1" + b + "Jan 01 00:00Z", "1 Jan 2001 00:00(" + b + ")"} {
					c.clean("one-byte", in)
				}
			})
		}},
		section{"two-bytes", fixed(256), func(c *Ctx, i int) {
			for k := 0; k < 256; k++ {
				c.clean("two-bytes", string([]byte{byte(i), byte(k)}))
			}
		}},
		section{"date-fields", fixed(40), func(c *Ctx, i int) {
			// every two notable fields, some more
			fieldPairs(i, 40, func(s string) { c.clean("date-fields", s) })
			for k := 0; k < 150; k++ {
				c.clean("date-fields", c.anyFields(3+k%4))
			}
		}},
		section{"soup", tiers(2500, 40000), func(c *Ctx, i int) { c.clean("soup", c.g.Soup(12)) }},
		section{"date-soup", tiers(1500, 20000), func(c *Ctx, i int) { c.clean("date-soup", c.g.DateSoup(10)) }},
		section{"damaged", tiers(500, 10000), func(c *Ctx, i int) {
			c.g.Charsets = i%2 == 0
			rfc5322.CharsetReader = []mode{modes[0], modes[1], modes[3], modes[4]}[i%4].cr
			s, _ := c.g.List(1 + i%2)
			if len(s) > 300 {
				s = s[:300]
			}
			c.leaks(func() {
				for k := 0; k < 4; k++ {
					c.clean("damaged", c.g.Mutate(s))
				}
			})
		}},
		section{"damaged-date", tiers(500, 10000), func(c *Ctx, i int) {
			s, _ := c.g.Date(false)
			if len(s) > 300 {
				s = s[:300]
			}
			for k := 0; k < 4; k++ {
				c.clean("damaged-date", c.g.MutateDate(s))
			}
		}},
		section{"truncated", tiers(60, 800), func(c *Ctx, i int) {
			s, _ := c.g.Mailbox()
			if i%3 == 0 {
				s, _ = c.g.Date(true)
			}
			if len(s) > 120 {
				s = s[:120]
			}
			for k := 0; k <= len(s); k++ {
				c.clean("truncated", s[:k])
				if k%4 == 0 {
					c.clean("truncated", s[k:])
				}
			}
		}},
		section{"random-bytes", tiers(1500, 30000), func(c *Ctx, i int) {
			b := make([]byte, 1+c.rng.Intn(40))
			c.rng.Read(b)
			c.clean("random-bytes", string(b))
		}},
		section{"ill-formed", tiers(400, 4000), func(c *Ctx, i int) {
			s := []string{"a@b", "\"q\" <a@[b]>", "g:a@b;", "=?utf-8?Q?x?= <a@b>", "1 Jan 2001 00:00:00 +0000", "(c)a@b"}[i%6]
			at := c.rng.Intn(len(s) + 1)
			in := s[:at] + bad[i/6%len(bad)] + s[at:]
			if utf8.ValidString(in) {
				in += "\xff"
			}
			c.clean("ill-formed", in)
		}},
		section{"hostile", fixed(len(hostile) * 6), func(c *Ctx, i int) {
			h := hostile[i%len(hostile)]
			n := h.max >> (2 * (5 - i/len(hostile)))
			if n == 0 {
				n = 1
			}
			c.leaks(func() { c.clean("hostile "+h.name, h.make(n)) })
			c.Count("hostile", 1)
			if n > c.st.Counters["max.repetitions"] {
				c.st.Counters["max.repetitions"] = n
			}
		}},
		section{"hostile-random", tiers(150, 3000), func(c *Ctx, i int) {
			// two hostile shapes glued, or one cut in the middle
			a, b := hostile[c.rng.Intn(len(hostile))], hostile[c.rng.Intn(len(hostile))]
			s := a.make(1+c.rng.Intn(25)) + b.make(1+c.rng.Intn(25))
			if c.rng.Intn(2) == 0 {
				s = s[:c.rng.Intn(len(s))]
			}
			if len(s) > 300 {
				s = s[len(s)-300:]
			}
			c.clean("hostile-random", s)
		}},
	)
}
