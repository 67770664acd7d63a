package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
)

// live is what the heap holds after everything unreachable is gone.
func live() (bytes, objects int64) {
	var ms runtime.MemStats
	for k := 0; k < 3; k++ {
		runtime.GC() // finalizers and pools need more than one cycle
	}
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), int64(ms.HeapObjects)
}

// supply is an endless supply of distinct inputs that look alike to the parser:
// what it has to learn about the grammar does not grow with them.
type supply struct {
	name string
	date bool
	n    int
	make func(n int) string
}

var supplies = []supply{
	{"same-address", false, 500, func(int) string { return "a@b" }},
	{"same-list", false, 60, func(int) string { return "\"A B\" <a@b>, g:c@d;, =?utf-8?Q?x?= <e@f>" }},
	{"same-date", true, 700, func(int) string { return "Mon, 1 Jan 2001 00:00:00 +0000" }},
	{"same-refused", false, 1500, func(int) string { return "a b <" }},
	{"same-refused-date", true, 1500, func(int) string { return "1 Jan x" }},
	{"same-broken-inside", false, 500, func(int) string { return "<a@b" }},
	{"locals", false, 300, func(n int) string { return fmt.Sprintf("%06d@b", n) }},
	{"domains", false, 300, func(n int) string { return fmt.Sprintf("a@%06d", n) }},
	{"literals", false, 300, func(n int) string { return fmt.Sprintf("a@[%06d]", n) }},
	{"names", false, 200, func(n int) string { return fmt.Sprintf("%06d <a@b>", n) }},
	{"quoted", false, 250, func(n int) string { return fmt.Sprintf("\"%06d\"<a@b>", n) }},
	{"quoted-pairs", false, 250, func(n int) string {
		s := fmt.Sprintf("%04d", n)
		return fmt.Sprintf("\"\\%c\\%c\\%c\\%c\"<a@b>", s[0], s[1], s[2], s[3])
	}},
	{"groups", false, 200, func(n int) string { return fmt.Sprintf("%06d:a@b;", n) }},
	{"encoded", false, 120, func(n int) string { return fmt.Sprintf("=?utf-8?Q?%06d?=<a@b>", n) }},
	{"encoded-foreign", false, 120, func(n int) string { return fmt.Sprintf("=?x-rot?Q?%06d?=<a@b>", n) }},
	{"encoded-charsets", false, 120, func(n int) string { return fmt.Sprintf("=?%06d?Q?a?=<a@b>", n) }},
	{"comments", false, 250, func(n int) string { return fmt.Sprintf("(%06d)a@b", n) }},
	{"routes", false, 250, func(n int) string { return fmt.Sprintf("<@%04d:a@b>", n) }},
	{"obs-locals", false, 200, func(n int) string { return fmt.Sprintf("\"%04d\".%04d@b", n, n) }},
	{"ports", false, 300, func(n int) string { return fmt.Sprintf("a@b:%05d", n) }},
	{"non-ascii", false, 250, func(n int) string { return string([]rune{rune(0x4e00 + n), rune(0x3042 + n%60)}) + "<a@b>" }},
	{"refused", false, 1500, func(n int) string { return fmt.Sprintf("%06d", n) }},
	{"refused-late", false, 400, func(n int) string { return fmt.Sprintf("a@b,%06d", n) }},
	{"refused-characters", false, 1500, func(n int) string { return string(rune(0x4e00+n)) + "<" }},
	{"undecodable", false, 120, func(n int) string { return fmt.Sprintf("=?x-none?Q?%06d?=<a@b>", n) }},
	{"undecodable-charsets", false, 120, func(n int) string { return fmt.Sprintf("=?none%06d?Q?a?=<a@b>", n) }},
	{"bad-base64", false, 120, func(n int) string { return fmt.Sprintf("=?utf-8?B?%06d!?=<a@b>", n) }},
	{"bad-encoding", false, 120, func(n int) string { return fmt.Sprintf("=?utf-8?%06d?a?=<a@b>", n) }},
	{"base64", false, 120, func(n int) string {
		return "=?utf-8?B?" + base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("%06d", n))) + "?=<a@b>"
	}},
	{"nested-comments", false, 200, func(n int) string { return fmt.Sprintf("((%06d))a@b", n) }},
	{"comment-pairs", false, 200, func(n int) string { return fmt.Sprintf("(\\%c\\%c\\%c)a@b", '0'+n%10, '0'+n/10%10, '0'+n/100%10) }},
	{"empty-angles", false, 200, func(n int) string { return fmt.Sprintf("%06d <>", n) }},
	{"group-members", false, 120, func(n int) string { return fmt.Sprintf("g:%06d@b,%06d <c@d>;", n, n) }},
	{"obs-groups", false, 120, func(n int) string { return fmt.Sprintf("g:,%06d@b,,c@%06d,;", n, n) }},
	{"two-lists", false, 150, func(n int) string { return fmt.Sprintf("%06d@b;c@%06d", n, n) }},
	{"dotted", false, 150, func(n int) string { return fmt.Sprintf("%04d.%04d@%04d.x", n, n, n) }},
	{"quoted-locals", false, 200, func(n int) string { return fmt.Sprintf("<\"%06d x\"@b>", n) }},
	{"name-words", false, 100, func(n int) string { return fmt.Sprintf("%04d \"%04d\" %04d.@x <a@b>", n, n, n) }},
	{"folded", false, 150, func(n int) string { return fmt.Sprintf("%06d\r\n <a@b>", n) }},
	{"literal-folds", false, 150, func(n int) string { return fmt.Sprintf("a@[%04d\r\n %04d]", n, n) }},
	{"refused-quoted", false, 600, func(n int) string { return fmt.Sprintf("\"%06d", n) }},
	{"refused-encoded", false, 300, func(n int) string { return fmt.Sprintf("=?utf-8?Q?%06d?=", n) }},
	{"refused-group", false, 300, func(n int) string { return fmt.Sprintf("g:<%06d", n) }},
	{"refused-comment", false, 600, func(n int) string { return fmt.Sprintf("(%06d", n) }},
	{"refused-tail", false, 300, func(n int) string { return fmt.Sprintf("a@b %06d", n) }},
	{"refused-bytes", false, 1000, func(n int) string { return fmt.Sprintf("\xff%06d\xff", n) }},
	{"date-comments", true, 500, func(n int) string { return fmt.Sprintf("1 Jan 2001 00:00 GMT (%06d)", n) }},
	{"date-two-digits", true, 700, func(n int) string { return fmt.Sprintf("%02d Jan %02d 10:%02d PST", 10+n%18, n%100, 10+n%50) }},
	{"date-obs-zones", true, 700, func(n int) string { return fmt.Sprintf("1 Jan 2001 %02d:%02d:%02d", 10+n%14, 10+n/14%50, 10+n%50) }},
	{"refused-date-tail", true, 600, func(n int) string { return fmt.Sprintf("1 Jan 2001 00:00:00 +0000 %06d", n) }},
	{"refused-date-month", true, 1000, func(n int) string { return fmt.Sprintf("1 J%06d 2001 00:00", n) }},
	{"dates", true, 700, func(n int) string {
		return fmt.Sprintf("%02d Jan %04d %02d:%02d:%02d +0000", 10+n%18, 1900+n%1000, 10+n%14, 10+n%50, 10+n/50%50)
	}},
	{"date-zones", true, 700, func(n int) string {
		return fmt.Sprintf("10 Jan 2001 10:00:00 +%02d%02d", n%24, n/24%60)
	}},
	{"empty-groups", false, 250, func(n int) string { return fmt.Sprintf("%06d:;", n) }},
	{"quoted-groups", false, 120, func(n int) string { return fmt.Sprintf("\"%06d\":a@b;", n) }},
	{"encoded-groups", false, 120, func(n int) string { return fmt.Sprintf("=?utf-8?Q?%06d?=:;", n) }},
	{"large-groups", false, 60, func(n int) string { return fmt.Sprintf("g:%05d@b,%05dx@b,%05dy@b;", n, n, n) }},
	{"commented-groups", false, 150, func(n int) string { return fmt.Sprintf("g:(%06d);", n) }},
	{"group-and-address", false, 120, func(n int) string { return fmt.Sprintf("%05d:;,%05d@b", n, n) }},
	{"long-names", false, 30, func(n int) string { return fmt.Sprintf("%0100d <a@b>", n) }},
	{"long-quoted", false, 30, func(n int) string { return fmt.Sprintf("\"%0100d\" <a@b>", n) }},
	{"long-locals", false, 30, func(n int) string { return fmt.Sprintf("%0100d@b", n) }},
	{"long-domains", false, 30, func(n int) string { return fmt.Sprintf("a@%0100d", n) }},
	{"long-comments", false, 30, func(n int) string { return fmt.Sprintf("(%0100d)a@b", n) }},
	{"long-encoded", false, 20, func(n int) string { return fmt.Sprintf("=?utf-8?Q?%0100d?= <a@b>", n) }},
	{"long-refused", false, 120, func(n int) string { return fmt.Sprintf("a@b, <%0200d", n) }},
	{"names-and-addresses", false, 80, func(n int) string { return fmt.Sprintf("%05d <%05d@%05d>", n, n, n) }},
	{"quoted-non-ascii", false, 150, func(n int) string { return "\"" + string([]rune{rune(0x4e00 + n), rune(0x3042 + n%60)}) + "\" <a@b>" }},
	{"domains-non-ascii", false, 150, func(n int) string { return "a@" + string([]rune{rune(0x4e00 + n), rune(0x3042 + n%60)}) }},
	{"mailbox-lists", false, 60, func(n int) string { return fmt.Sprintf("%05d@b,%05dx@b,%05dy@b", n, n, n) }},
	{"empty-elements", false, 150, func(n int) string { return fmt.Sprintf(",,%06d@b,,", n) }},
	{"obs-domains", false, 150, func(n int) string { return fmt.Sprintf("a@%04d (x) .%04d", n, n) }},
	{"route-lists", false, 120, func(n int) string { return fmt.Sprintf("<@%04d,@x,@%04d:a@b>", n, n) }},
	{"date-names", true, 700, func(n int) string {
		return fmt.Sprintf("%s, %02d Feb %04d 11:%02d:00 EST", []string{"Mon", "tue", "WED"}[n%3], 10+n%18, 1800+n, 10+n%50)
	}},
	{"date-leading-comments", true, 500, func(n int) string { return fmt.Sprintf("(%06d) 1 Jan 2001 00:00 GMT", n) }},
	{"date-negative-zones", true, 700, func(n int) string {
		return fmt.Sprintf("10 Jan 2001 10:00:00 -%02d%02d", n%100, n/100%60)
	}},
	{"date-unsigned-zones", true, 700, func(n int) string {
		return fmt.Sprintf("10 Jan 2001 10:00:00 %02d%02d", n%100, n/100%60)
	}},
	{"refused-date-zone", true, 1000, func(n int) string { return fmt.Sprintf("1 Jan 2001 00:00 X%06d", n) }},
	{"refused-date-name", true, 1000, func(n int) string { return fmt.Sprintf("%06d, 1 Jan 2001 00:00", n) }},
	{"refused-dates", true, 1500, func(n int) string { return fmt.Sprintf("%06d", n) }},
}

func init() {
	sections(&Prop{
		ID: "P18",
		Rule: fmt.Sprintf("A case makes hundreds of calls from one of %d supplies of inputs that exercise the same grammar paths (identical inputs, or inputs that differ only in digits or non-ASCII characters), drops the results, collects garbage and compares the live heap; "+
			"growth has to show twice in a row to count. One case parses varied lists of several times the library's own limits and watches the live heap throughout. Non-trivial: a supply measured to the end.", len(supplies)),
		MinNontrivial: fixed(len(supplies)),
		Assume:        []string{"memory reachable only from the library's globals shows up as heap that survives garbage collection"},
	},
		section{"varied", fixed(1), func(c *Ctx, i int) {
			// The prediction cache may grow, but not forever.
			defer debug.SetGCPercent(debug.SetGCPercent(100))
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(6))
			c.cpuLimit.Store(3000)
			defer c.cpuLimit.Store(90)
			total := 135 << 10
			if c.thorough {
				total = 1 << 20
			}
			const windows = 12
			var highest, done int64
			rfc5322.CharsetReader = pureMadeUp
			for w := 0; w < windows; w++ {
				var wg sync.WaitGroup
				var mu sync.Mutex
				c.enter("varied lists", fmt.Sprint("window ", w))
				for k := 0; k < 6; k++ {
					r := rand.New(rand.NewSource(mix(c.seed, "varied", w*10+k)))
					wg.Add(1)
					go func() {
						defer wg.Done()
						g := gen.New(r)
						n := 0
						for n < total/windows/6 {
							s, _ := g.List(1 + g.Intn(3))
							if len(s) > 400 {
								continue
							}
							n += len(s)
							rfc5322.ParseAddressList(s)
							d, _ := g.Date(false)
							rfc5322.ParseDateTime(d)
						}
						mu.Lock()
						done += int64(n)
						mu.Unlock()
					}()
				}
				wg.Wait()
				c.leave()
				b, _ := live()
				highest = max(highest, b)
				if b > 600<<20 {
					c.Fail("heap", "", "at most 600 MB live after parsing varied lists", fmt.Sprintf("%d MB after %d bytes of input", b>>20, done))
					return
				}
			}
			c.Count("varied.input.bytes", int(done))
			c.Count("max.live.megabytes", int(highest>>20))
			c.Sample("varied lists: %d bytes of input, at most %d MB live", done, highest>>20)
		}},
		section{"supplies", fixed(len(supplies)), func(c *Ctx, i int) {
			s := supplies[i]
			rfc5322.CharsetReader = pureMadeUp
			n := s.n
			if c.thorough {
				n *= 10
			}
			next, refused := 0, 0
			feed := func(n int) {
				c.enter("feed", s.name)
				for k := 0; k < n; k++ {
					var err error
					if s.date {
						_, err = rfc5322.ParseDateTime(s.make(next))
					} else {
						_, err = rfc5322.ParseAddressList(s.make(next))
					}
					if err != nil {
						refused++
					}
					next++
				}
				c.leave()
				c.st.Evaluations += n - 1
			}
			feed(30) // learn the grammar paths
			grew := 0
			var report []string
			for round := 0; round < 4 && grew < 2; round++ {
				b0, o0 := live()
				feed(n)
				b1, o1 := live()
				report = append(report, fmt.Sprintf("%d calls left %d bytes in %d objects", n, b1-b0, o1-o0))
				// a tenth of an object or 16 bytes per call are no rounding errors
				if o1-o0 > int64(n/10+60) || b1-b0 > int64(16*n+24000) {
					grew++
				} else {
					if round == 0 || grew == 0 {
						break
					}
					grew = 0
				}
			}
			line := s.name + ": " + strings.Join(report, "; ")
			if grew >= 2 {
				c.Fail("retained", s.make(next), "no memory is kept per call", line)
			}
			c.Nontrivial(s.name)
			c.Count("calls", next)
			c.Count("refused", refused)
			c.Sample("%s", line)
		}},
	)
}
