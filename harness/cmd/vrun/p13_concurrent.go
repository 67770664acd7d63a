package main

import (
	"fmt"
	"io"
	"math/rand"
	"net/mail"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

// job is a call with its known outcome.
type job struct {
	input string
	date  bool
	bad   bool // must be refused
	want  []ref.Addr
	d     ref.Date
}

// event is one entry of a concurrent history.
type event struct {
	seq   int64
	g     int
	start bool
}

// run performs the call and compares; it touches nothing shared.
func (j *job) run() (diff, got string) {
	defer func() {
		if p := recover(); p != nil {
			diff, got = "panic", fmt.Sprint(p)
		}
	}()
	if j.date {
		now := years()
		t, err := rfc5322.ParseDateTime(j.input)
		now = append(now, years()...)
		switch {
		case j.bad && err == nil:
			return "an error", t.String()
		case j.bad:
			return "", ""
		case err != nil:
			return dateWant(j.d), err.Error()
		}
		if s := checkDate(j.d, t, now); s != "" {
			return dateWant(j.d), t.String() + ": " + s
		}
		return "", ""
	}
	as, err := rfc5322.ParseAddressList(j.input)
	r := Res{Addrs: as, Err: err}
	switch {
	case j.bad && err == nil:
		return "an error", r.addrString()
	case j.bad:
		return "", ""
	case err != nil || !sameAddrs(as, j.want):
		return fmtWant(j.want), r.addrString()
	}
	// The result belongs to the caller: scribble over it. If anything else
	// still refers to it, the race detector or a later comparison sees this.
	for _, a := range as {
		a.Name, a.Address = "scribbled", "scribbled"
	}
	if len(as) > 0 {
		as = append(as[:0], &mail.Address{Name: "scribbled"})
	}
	return "", ""
}

// modelled asks the model what the input means.
func (j job) modelled() *job {
	j.want, _, _ = ref.Addresses(j.input, nil)
	return &j
}

func anyJob(g *gen.G) *job {
	switch g.Intn(10) {
	case 7:
		s, want := g.List(1 + g.Intn(2))
		if len(s) < 200 {
			return &job{input: s, want: want}
		}
		return anyJob(g)
	case 8:
		// words no reader can decode, and inputs with words the code may treat specially
		v := vocab()
		w := gen.Pick(g, v.known...)
		if len(v.fresh) > 0 && g.Intn(2) == 0 {
			w = gen.Pick(g, v.fresh...)
		}
		if g.Intn(3) == 0 || !quotable(w) {
			u := gen.Pick(g, "=?x-none?Q?a?=", "=?utf-8?B?!?=", "=?utf-8?Q?=GG?=", "=?X-Zz?b?YQ==?=")
			return &job{input: "K " + u + " <a@b>", want: one("K "+u, "a@b")}
		}
		w = "\"" + gen.Quote(w) + "\""
		val, _, _ := ref.Addresses(w+"<a@b>", nil)
		return &job{input: w + "<a@b>", want: val}
	case 9:
		return job{input: gen.Pick(g, "<>", "a@[1.2.3.4]:25", "<@r,@s:\"q\".x@b>", "g:;", "a@b;c@d", "g:,a@b,,<c@d>,;"), want: nil}.modelled()
	case 0:
		s, d := g.Date(true)
		return &job{input: s, date: true, d: d}
	case 1:
		if g.Intn(2) == 0 {
			s := g.Soup(6)
			if n, dec := ref.Parse("addressList", s); s != "" && n == nil && dec {
				return &job{input: s, bad: true}
			}
		}
		s := g.DateSoup(5)
		if n, dec := ref.Parse("dateTime", s); s != "" && n == nil && dec {
			return &job{input: s, bad: true, date: true}
		}
		return anyJob(g)
	case 2:
		g.Charsets = true
		s, v := g.EncodedWord(10)
		return &job{input: s + "<a@b>", want: one(v, "a@b")}
	case 3:
		n := g.Intn(1000)
		s, want := join(1+g.Intn(4), func(int) string { return "," }, func(i int) int { return i + n })
		return &job{input: s, want: want}
	case 4:
		s := fmt.Sprintf("N%d <u%d@h>", g.Intn(1000), g.Intn(1000))
		var a, b int
		fmt.Sscanf(s, "N%d <u%d@h>", &a, &b)
		return &job{input: s, want: one(fmt.Sprintf("N%d", a), fmt.Sprintf("u%d@h", b))}
	}
	g.Plain = g.Intn(2) == 0
	s, m := g.Mailbox()
	return &job{input: s, want: []ref.Addr{m}}
}

// slowMadeUp converts the made-up charsets and yields at awkward moments.
func slowMadeUp(seed int64) func(string, io.Reader) (io.Reader, error) {
	var n atomic.Int64
	return func(cs string, in io.Reader) (io.Reader, error) {
		k := n.Add(1) + seed
		switch k % 5 {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(k%7) * 100 * time.Microsecond)
		}
		b, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		if k%3 == 0 {
			// parsing from inside a CharsetReader is allowed
			s := fmt.Sprintf("r%d@h", k%11)
			as, err := rfc5322.ParseAddressList(s)
			if err != nil || len(as) != 1 || as[0].Address != s {
				return strings.NewReader("NESTED PARSE WRONG"), nil
			}
		}
		return madeUp(cs, string(b))
	}
}

// nestedHook decodes x-nestN by parsing an encoded word of x-nest(N-1).
func nestedHook(cs string, in io.Reader) (io.Reader, error) {
	b, err := io.ReadAll(in)
	if err != nil {
		return nil, err
	}
	d := string(b)
	inner, want := "=?utf-8?Q?"+d+"?=", d
	n, _ := strconv.Atoi(strings.TrimPrefix(cs, "x-nest"))
	if n > 1 {
		inner, want = fmt.Sprintf("=?X-Nest%d?Q?%s?=", n-1, d), "<"+d+">"
	}
	if n > 8 {
		// deep rather than much
		as, err := rfc5322.ParseAddressList(inner + " <n@h>")
		if err != nil || len(as) != 1 || as[0].Name != want || as[0].Address != "n@h" {
			return strings.NewReader(fmt.Sprint("NESTED PARSE WRONG: ", as, err)), nil
		}
		return strings.NewReader("<" + d + ">"), nil
	}
	as, err := rfc5322.ParseAddressList("\"q\" " + inner + " =?iso-8859-1?Q?=E9?= <n@h>, g:=?us-ascii?q?z?=<i@j>;")
	if err != nil || len(as) != 2 || as[0].Name != "q "+want+"é" || as[1].Name != "z" || as[0].Address != "n@h" {
		return strings.NewReader(fmt.Sprint("NESTED PARSE WRONG: ", as, err)), nil
	}
	if t, err := rfc5322.ParseDateTime("1 Jan 2001 02:03:04 +0100"); err != nil || t.Unix() != 978310984 {
		return strings.NewReader(fmt.Sprint("NESTED DATE WRONG: ", t, err)), nil
	}
	if _, err := rfc5322.ParseAddressList("<" + d); err == nil {
		return strings.NewReader("NESTED PARSE WRONG: no error"), nil
	}
	return strings.NewReader("<" + d + ">"), nil
}

// meetReader waits at its first Read.
type meetReader struct {
	meet func()
	r    io.Reader
}

func (m *meetReader) Read(b []byte) (int, error) {
	if m.meet != nil {
		m.meet()
		m.meet = nil
	}
	return m.r.Read(b)
}

// storm runs jobs from several goroutines and judges every outcome.
func (c *Ctx) storm(kind string, goroutines, rounds int, pick func(g, r int) *job) {
	var seq atomic.Int64
	logs := make([][]event, goroutines)
	type bad struct{ in, want, got string }
	bads := make([][]bad, goroutines)
	plan := make([][]*job, goroutines)
	for g := range plan {
		for r := 0; r < rounds; r++ {
			plan[g] = append(plan[g], pick(g, r))
		}
	}
	c.enter("concurrent "+kind, plan[0][0].input)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-gate
			for r, j := range plan[g] {
				logs[g] = append(logs[g], event{seq.Add(1), g, true})
				want, got := j.run()
				logs[g] = append(logs[g], event{seq.Add(1), g, false})
				if want != "" {
					bads[g] = append(bads[g], bad{j.input, want, got})
				}
				if (g+r)%3 == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(gate)
	wg.Wait()
	c.leave()
	c.st.Evaluations += goroutines*rounds - 1
	// offline: how much did the calls really overlap, and in what order
	var all []event
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, k int) bool { return all[i].seq < all[k].seq })
	open, overlaps, maxOpen := 0, 0, 0
	var sig strings.Builder
	for _, e := range all {
		if e.start {
			overlaps += open
			open++
			maxOpen = max(maxOpen, open)
			fmt.Fprintf(&sig, "%d(", e.g)
		} else {
			open--
			fmt.Fprintf(&sig, ")%d", e.g)
		}
	}
	c.Count("overlapping.call.pairs", overlaps)
	c.Count("events", len(all))
	if maxOpen > c.st.Counters["max.calls.in.flight"] {
		c.st.Counters["max.calls.in.flight"] = maxOpen
	}
	if overlaps > 0 {
		c.Nontrivial(sig.String())
	}
	c.Sample("%s: %d goroutines, %d events, %d overlapping call pairs: %s", kind, goroutines, len(all), overlaps, sig.String())
	for _, b := range bads {
		for _, x := range b {
			c.Fail("cross-talk", x.in, x.want, x.got)
		}
	}
}

func init() {
	sections(&Prop{
		ID:   "P13",
		Race: true, Workers: 4,
		Rule: "A case starts up to 16 goroutines at one gate, each making several calls with known outcomes (valid and invalid addresses and dates, encoded words whose CharsetReader yields, sleeps and parses again), in the race-detector build. " +
			"Every result is compared and then overwritten by its owner. Call starts and ends are logged with a global sequence number; the log shows which calls overlapped. Separate processes make their very first calls concurrently. " +
			"Non-trivial: a distinct order of starts and ends with at least one overlap.",
		MinNontrivial: fixed(60),
		Assume:        []string{"CharsetReader is set before the calls start and is itself safe for concurrent use"},
	},
		section{"cold-start", tiers(24, 200), func(c *Ctx, i int) {
			dir, err := os.MkdirTemp("", "vrun-cold-")
			if err != nil {
				c.Broken("%v", err)
				return
			}
			defer os.RemoveAll(dir)
			out := dir + "/out"
			cmd := exec.Command(os.Args[0], "cold", fmt.Sprint(mix(c.seed, "cold", i)), out)
			cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 2+i%7))
			c.enter("cold start", fmt.Sprint("process ", i))
			text, err := cmd.CombinedOutput()
			c.leave()
			b, _ := os.ReadFile(out)
			switch {
			case err == nil && string(b) == "ok":
				c.Count("cold.starts", 1)
				c.Nontrivial(fmt.Sprint("cold", i))
			case len(b) > 0:
				c.Fail("cold-start", fmt.Sprint("process ", i), "every first call gives its known result", string(b))
			case crashInLibrary(string(text)):
				c.Fail("cold-start-crash", fmt.Sprint("process ", i), "the process survives its first calls", string(text))
			default:
				c.Broken("cold start %d: %v\n%s", i, err, text)
			}
		}},
		section{"storm", tiers(40, 900), func(c *Ctx, i int) {
			rfc5322.CharsetReader = slowMadeUp(int64(i))
			c.storm("mixed", 4+i%13, 3, func(g, r int) *job { return anyJob(c.g) })
		}},
		section{"same-input", tiers(12, 300), func(c *Ctx, i int) {
			rfc5322.CharsetReader = slowMadeUp(int64(i))
			j := anyJob(c.g)
			c.storm("same-input", 8, 3, func(g, r int) *job { return j })
		}},
		section{"near-inputs", tiers(16, 300), func(c *Ctx, i int) {
			// inputs that differ in one character, so that cross-talk shows
			c.storm("near-inputs", 8, 3, func(g, r int) *job {
				n, a := fmt.Sprintf("Nm%c", 'a'+g), fmt.Sprintf("u%c@h%d", 'a'+r, i%3)
				return &job{input: n + " <" + a + ">", want: one(n, a)}
			})
		}},
		section{"encoded", tiers(16, 300), func(c *Ctx, i int) {
			rfc5322.CharsetReader = slowMadeUp(int64(i))
			c.storm("encoded", 8, 3, func(g, r int) *job {
				d := fmt.Sprintf("w%c%c", 'a'+g, 'a'+r)
				return &job{input: "=?x-up?Q?" + d + "?= =?x-rot?Q?" + d + "?= <a@b>", want: one(gen.Convert("x-up", d)+gen.Convert("x-rot", d), "a@b")}
			})
		}},
		section{"hook-parses", tiers(12, 200), func(c *Ctx, i int) {
			// a charset hook that parses encoded words, whose hook parses again
			rfc5322.CharsetReader = nestedHook
			c.storm("hook-parses", 1+i%6, 2, func(g, r int) *job {
				d := fmt.Sprintf("d%c%c", 'a'+g, 'a'+r)
				depth := 1 + (i+g)%4
				if (i == 5 || i == 6) && g == 0 && r == 0 {
					depth = 20*i - 30
				}
				return &job{input: fmt.Sprintf("=?x-nest%d?Q?%s?= <a@b>", depth, d), want: one("<"+d+">", "a@b")}
			})
		}},
		section{"hook-waits", tiers(12, 200), func(c *Ctx, i int) {
			// hooks and their readers that go on only when the other calls got as far
			n := 2 + i%5
			if i == 4 || i == 7 { // more than any pool would have places for
				n = 20*i + 50
			}
			var in atomic.Int64
			all := make(chan struct{})
			rfc5322.CharsetReader = func(cs string, r io.Reader) (io.Reader, error) {
				b, _ := io.ReadAll(r)
				if cs != "x-meet" {
					return madeUp(cs, string(b))
				}
				meet := func() {
					if in.Add(1) == int64(n) {
						close(all)
					}
					<-all
				}
				if i%2 == 0 {
					meet()
					return strings.NewReader("<" + string(b) + ">"), nil
				}
				return &meetReader{meet: meet, r: strings.NewReader("<" + string(b) + ">")}, nil
			}
			c.storm("hook-waits", n, 1, func(g, r int) *job {
				d := fmt.Sprintf("m%d", g)
				return &job{input: "=?x-up?Q?u?= =?X-Meet?Q?" + d + "?= <a@b>", want: one(gen.Convert("x-up", "u")+"<"+d+">", "a@b")}
			})
		}},
		section{"hook-starts", tiers(12, 200), func(c *Ctx, i int) {
			// a hook that waits for calls other goroutines start and finish meanwhile
			j := [6]*job{}
			for k := range j {
				j[k] = anyJob(c.g)
			}
			var bad atomic.Value
			rfc5322.CharsetReader = func(cs string, r io.Reader) (io.Reader, error) {
				b, _ := io.ReadAll(r)
				if cs != "x-start" {
					return madeUp(cs, string(b))
				}
				var wg sync.WaitGroup
				for k := range j {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if want, got := j[k].run(); want != "" {
							bad.Store([3]string{j[k].input, want, got})
						}
					}()
				}
				wg.Wait()
				return strings.NewReader("<" + string(b) + ">"), nil
			}
			c.storm("hook-starts", 2, 1, func(g, r int) *job {
				return &job{input: "=?X-Start?B?eA==?= <a@b>", want: one("<x>", "a@b")}
			})
			if b, ok := bad.Load().([3]string); ok {
				c.Fail("cross-talk", b[0], b[1], b[2])
			}
			c.Count("calls.inside.hooks", len(j)*2)
		}},
		section{"dates", tiers(16, 800), func(c *Ctx, i int) {
			c.storm("dates", 12, 12, func(g, r int) *job {
				s, d := c.g.Date(true)
				return &job{input: s, date: true, d: d}
			})
		}},
		section{"long-inputs", tiers(4, 60), func(c *Ctx, i int) {
			c.storm("long-inputs", 4, 1, func(g, r int) *job {
				s, want := join(20+g*7, func(int) string { return "," }, func(k int) int { return k + g })
				return &job{input: s, want: want}
			})
		}},
	)
}

// cold is a process whose first calls into the library are concurrent.
func cold(seed int64, out string) {
	r := rand.New(rand.NewSource(seed))
	rfc5322.CharsetReader = slowMadeUp(seed)
	var jobs []*job
	for i := 0; i < 8; i++ {
		jobs = append(jobs, anyJob(gen.New(rand.New(rand.NewSource(r.Int63())))))
	}
	res := make([]string, len(jobs))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j *job) {
			defer wg.Done()
			<-gate
			if want, got := j.run(); want != "" {
				res[i] = fmt.Sprintf("input %q: want %s, got %s\n", j.input, want, got)
			}
		}(i, j)
	}
	close(gate)
	wg.Wait()
	s := strings.Join(res, "")
	if s == "" {
		s = "ok"
	}
	os.WriteFile(out, []byte(s), 0o644)
}
