package main

import (
	"fmt"
	"io"
	"net/mail"
	"runtime"
	"strings"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

// mode is a CharsetReader a history may switch to.
type mode struct {
	name string
	cr   func(charset string, in io.Reader) (io.Reader, error)
	// model is the same conversion as a pure function; nil for modes after
	// which an input with a foreign charset has no defined outcome.
	model ref.CharsetReader
}

type lazyReader struct{ open func() io.Reader }

func (l *lazyReader) Read(p []byte) (int, error) {
	r := l.open()
	l.open = func() io.Reader { return r }
	return r.Read(p)
}

var modes = []mode{
	{name: "nil"},
	{name: "made-up", cr: pureMadeUp, model: pureMadeUp},
	{name: "brackets", cr: pureBrackets, model: pureBrackets},
	{name: "failing", cr: func(string, io.Reader) (io.Reader, error) { return nil, errInjected },
		model: func(string, io.Reader) (io.Reader, error) { return nil, errInjected }},
	{name: "half-way", cr: func(string, io.Reader) (io.Reader, error) { return script(step{"P", nil}, step{"", errInjected}), nil },
		model: func(string, io.Reader) (io.Reader, error) { return nil, errInjected }},
	{name: "re-entrant", cr: func(cs string, in io.Reader) (io.Reader, error) {
		rfc5322.ParseAddressList("=?utf-8?Q?inner?= <in@ner>, ,")
		rfc5322.ParseAddressList("broken <")
		rfc5322.ParseDateTime("Mon, 1 Jan 2001 00:00:00 +0000")
		return pureMadeUp(cs, in)
	}, model: pureMadeUp},
	{name: "re-entrant-read", cr: func(cs string, in io.Reader) (io.Reader, error) {
		r, err := pureMadeUp(cs, in)
		if err != nil {
			return nil, err
		}
		return &lazyReader{func() io.Reader { rfc5322.ParseAddressList("g:in@ner;"); return r }}, nil
	}, model: pureMadeUp},
	{name: "panicking", cr: func(string, io.Reader) (io.Reader, error) { panic("injected panic") }},
	// closures of one function and methods of one type: hooks that only what they capture tells apart
	{name: "closure-1", cr: tagged("1"), model: tagged("1")},
	{name: "closure-2", cr: tagged("2"), model: tagged("2")},
	{name: "closure-none", cr: tagged(""), model: tagged("")},
	{name: "method-1", cr: (&tagger{"m"}).read, model: tagged("m")},
	{name: "method-2", cr: (&tagger{"n"}).read, model: tagged("n")},
}

// tagged is a hook that puts a tag in front, or refuses everything without one.
func tagged(tag string) func(string, io.Reader) (io.Reader, error) {
	return func(cs string, in io.Reader) (io.Reader, error) {
		if tag == "" {
			return nil, errInjected
		}
		return io.MultiReader(strings.NewReader(tag), in), nil
	}
}

type tagger struct{ tag string }

func (t *tagger) read(cs string, in io.Reader) (io.Reader, error) { return tagged(t.tag)(cs, in) }

func pureMadeUp(cs string, in io.Reader) (io.Reader, error) {
	b, err := io.ReadAll(in)
	if err != nil {
		return nil, err
	}
	return madeUp(cs, string(b))
}

func pureBrackets(cs string, in io.Reader) (io.Reader, error) {
	b, err := io.ReadAll(in)
	if err != nil {
		return nil, err
	}
	return brackets(cs, string(b))
}

// hcase is one input of a history's pool with its meaning.
type hcase struct {
	in   string
	date bool
	tree *ref.Node
	d    ref.Date
}

// pool makes an input ready for use in histories; nil if the model gives up.
func poolCase(in string, date bool) *hcase {
	h := &hcase{in: in, date: date}
	rule := "addressList"
	if date {
		rule = "dateTime"
	}
	if in == "" {
		return nil
	}
	n, decided := ref.Parse(rule, in)
	if !decided {
		return nil
	}
	h.tree = n
	if n != nil && date {
		h.d = ref.EvalDateTime(n)
	}
	return h
}

// held is a result the caller still has.
type held struct {
	as   []*mail.Address
	want []ref.Addr
	in   string
}

// history drives one sequence of calls.
type history struct {
	c    *Ctx
	mode int
	held []held
	ops  []string
}

func (h *history) setMode(k int) {
	h.mode = k
	rfc5322.CharsetReader = modes[k].cr
	h.ops = append(h.ops, "CharsetReader="+modes[k].name)
}

func (h *history) log() []string {
	if len(h.ops) > 60 {
		return append([]string{fmt.Sprintf("(%d earlier operations)", len(h.ops)-60)}, h.ops[len(h.ops)-60:]...)
	}
	return append([]string(nil), h.ops...)
}

// parse makes the call and judges it.
func (h *history) parse(x *hcase) {
	c := h.c
	h.ops = append(h.ops, map[bool]string{true: "date ", false: "list "}[x.date]+x.in)
	if x.date {
		now := years()
		r := c.Date(x.in)
		now = append(now, years()...)
		switch {
		case x.tree == nil && (r.Panic != nil || r.Err == nil):
			c.Fail("history", x.in, "an error", r.dateString(), h.log()...)
		case x.tree == nil:
		case r.Panic != nil || r.Err != nil:
			c.Fail("history", x.in, dateWant(x.d), r.dateString(), h.log()...)
		default:
			if s := checkDate(x.d, r.Time, now); s != "" {
				c.Fail("history", x.in, dateWant(x.d), r.dateString()+": "+s, h.log()...)
			}
		}
		return
	}
	m := modes[h.mode]
	r := c.Addr(x.in)
	if m.name == "panicking" && r.Panic == "injected panic" {
		c.Count("panics.injected", 1)
		return // the caller's own panic came through; later calls are judged
	}
	if x.tree == nil {
		if r.Panic != nil || r.Err == nil || len(r.Addrs) != 0 {
			c.Fail("history", x.in, "an error and no addresses", r.addrString(), h.log()...)
		}
		return
	}
	if m.name == "panicking" && strings.Contains(x.in, "=?") {
		return
	}
	want := ref.EvalAddressList(x.tree, m.model)
	if r.Panic != nil || r.Err != nil || !sameAddrs(r.Addrs, want) {
		c.Fail("history", x.in, fmtWant(want), r.addrString(), h.log()...)
		return
	}
	h.held = append(h.held, held{r.Addrs, want, x.in})
	if len(h.held) > 4000 {
		h.held = h.held[1000:]
	}
}

// scribble overwrites one result; it belongs to the caller.
func (h *history) scribble(k int) {
	x := h.held[k]
	h.ops = append(h.ops, "overwrite the result of "+x.in)
	for _, a := range x.as {
		*a = mail.Address{Name: "scribbled", Address: "scribbled"}
	}
	if cap(x.as) > len(x.as) {
		x.as = append(x.as, &mail.Address{Name: "appended"})
	}
	for i := range x.as {
		x.as[i] = nil
	}
	h.held = append(h.held[:k], h.held[k+1:]...)
}

// settle re-checks every result that is still held.
func (h *history) settle() {
	for _, x := range h.held {
		if !sameAddrs(x.as, x.want) {
			h.c.Fail("held-result-changed", x.in, fmtWant(x.want), fmtAddrs(x.as), h.log()...)
		}
	}
	h.c.Count("held.results.rechecked", len(h.held))
	h.held = nil
}

var flavours = []string{"plain", "name", "quoted", "dates", "errors", "encoded", "group", "date-errors"}

// heldForms are inputs with a long text in different places.
var heldForms = []string{"% <a@b>", "\"%\" <a@b>", "%@b", "\"%\"@b", "N <a@%>", "a@[%]", "=?utf-8?Q?%?= <a@b>", "=?x-up?Q?%?= <a@b>", "g%:a@b,c@d;", "J % <a@b>", "(%)J.K <a@b>", "<a . b@%>"}

// numberedCase is the n-th distinct short input of a flavour.
func numberedCase(flavour string, n int) *hcase {
	switch flavour {
	case "plain":
		return poolCase(fmt.Sprintf("%x@b", n), false)
	case "name":
		return poolCase(fmt.Sprintf("N%x<a@b>", n), false)
	case "quoted":
		return poolCase(fmt.Sprintf("\"%x\"<a@b>", n), false)
	case "dates":
		return poolCase(fmt.Sprintf("%d Jan %d 0%d:0%d +0000", 1+n%28, 1950+n/28%100, n%10, n/10%6), true)
	case "errors":
		return poolCase(fmt.Sprintf("%x", n), false)
	case "encoded":
		return poolCase(fmt.Sprintf("=?x-rot?q?%x?=<a@b>", n), false)
	case "group":
		return poolCase(fmt.Sprintf("g%x:a@b;", n), false)
	case "date-errors":
		return poolCase(fmt.Sprintf("%d:", n), true)
	}
	panic(flavour)
}

func init() {
	run := func(c *Ctx, pool []*hcase, n int) {
		h := &history{c: c}
		h.setMode(c.rng.Intn(len(modes)))
		for k := 0; k < n && len(c.st.Violations) == 0; k++ {
			switch p := c.rng.Intn(20); {
			case p < 15:
				h.parse(pool[c.rng.Intn(len(pool))])
			case p < 17:
				h.setMode(c.rng.Intn(len(modes)))
			case p < 19:
				if len(h.held) > 0 {
					h.scribble(c.rng.Intn(len(h.held)))
				}
			default:
				runtime.GC()
				h.ops = append(h.ops, "GC")
			}
		}
		h.settle()
		c.Count("operations", len(h.ops))
		c.Nontrivial(strings.Join(h.ops, "\x00"))
		c.Sample("history: %q", h.ops)
	}
	build := func(list []string, dates []string) (pool []*hcase) {
		for _, s := range list {
			if x := poolCase(s, false); x != nil {
				pool = append(pool, x)
			}
		}
		for _, s := range dates {
			if x := poolCase(s, true); x != nil {
				pool = append(pool, x)
			}
		}
		return pool
	}
	sections(&Prop{
		ID: "P14",
		Rule: "A case is a sequence of operations on one process: parsing lists and dates from a pool of deliberately similar valid and invalid inputs, switching CharsetReader (including failing, re-entrant and panicking ones), " +
			"overwriting results, collecting garbage. Every result is compared with what the input alone (and the current CharsetReader) means, and every result still held is compared again at the end. " +
			"Long histories go through thousands of distinct inputs and come back to the first. Non-trivial: a distinct sequence of operations.",
		MinNontrivial: fixed(150),
		Assume:        []string{"CharsetReader is not changed while a call is running"},
	},
		section{"random", tiers(120, 1500), func(c *Ctx, i int) {
			var lists, dates []string
			for k := 0; k < 3; k++ {
				c.g.Plain, c.g.Charsets = true, false
				s, _ := c.g.Mailbox()
				if len(s) > 60 {
					s = fmt.Sprintf("S%d <a@b>", k)
				}
				lists = append(lists, s, c.g.Mutate(s), c.g.Mutate(s), strings.ToUpper(s), s+" ", s+","+s)
				d, _ := c.g.Date(false)
				if len(d) > 60 {
					d = "1 Jan 2001 00:00 GMT"
				}
				dates = append(dates, d, c.g.MutateDate(d))
			}
			for _, cs := range []string{"x-rot", "x-up", "x-none", "utf-8"} {
				d := fmt.Sprintf("w%c", 'a'+c.rng.Intn(3))
				lists = append(lists, "=?"+cs+"?Q?"+d+"?= <a@b>")
			}
			lists = append(lists, "=?x-rot?Q?a?= =?x-up?Q?a?= <a@b>, =?x-rot?Q?a?= <c@d>")
			run(c, build(lists, dates), 30)
		}},
		section{"one-character-apart", tiers(40, 300), func(c *Ctx, i int) {
			// inputs of the same length that differ in one place, in every place
			base := gen.Pick(c.g, "Jon Doe <jon@doe.example>", "\"J D\" <j.d@[1.2.3.4]>", "Gr:jon@doe,<a@b>;", "jon.doe@a.example", "=?x-up?Q?jon?= <a@b>")
			lists := []string{base}
			for k := range base {
				if b := base[k]; b >= 'a' && b <= 'z' || b >= '0' && b <= '9' {
					o := b + 1
					if b == 'z' || b == '9' {
						o = b - 1
					}
					lists = append(lists, base[:k]+string(o)+base[k+1:])
				}
			}
			dates := []string{"Mon, 12 Jan 2015 11:12:13 +0123"}
			for k, b := range []byte(dates[0]) {
				if b >= '0' && b <= '8' {
					dates = append(dates, dates[0][:k]+string(b+1)+dates[0][k+1:])
				}
			}
			if i%3 == 0 {
				dates = nil
			}
			run(c, build(lists, dates), 50)
		}},
		section{"mode-by-mode", fixed(len(modes) * len(modes)), func(c *Ctx, i int) {
			// the same inputs before and after every change of the reader
			pool := build([]string{"=?x-rot?Q?ab?= <a@b>", "=?x-up?B?YWI=?= =?utf-8?Q?c?= <a@b>", "=?x-none?Q?ab?= X <a@b>", "g: =?x-rot?Q?ab?= <a@b>;"}, nil)
			h := &history{c: c}
			for _, m := range []int{i % len(modes), i / len(modes), i % len(modes)} { // there and back
				h.setMode(m)
				for _, x := range pool {
					h.parse(x)
				}
			}
			h.settle()
			c.Nontrivial(strings.Join(h.ops, "\x00"))
		}},
		section{"long", fixed(len(flavours)), func(c *Ctx, i int) {
			f := flavours[i]
			n := 2300
			if c.thorough {
				n = 40000
			}
			switch f {
			case "dates":
				n = n * 2 / 3
			case "errors", "date-errors":
				n *= 4
			case "name", "quoted", "group":
				n = n * 2 / 3
			case "encoded":
				n /= 3
			}
			h := &history{c: c}
			h.setMode(1)
			for k := 0; k < n && len(c.st.Violations) == 0; k++ {
				h.parse(numberedCase(f, k))
				if k > 0 && k&(k-1) == 0 { // at powers of two, come back
					for j := 0; j < 8; j++ {
						h.parse(numberedCase(f, j))
					}
				}
			}
			for k := 0; k < 60 && len(c.st.Violations) == 0; k++ {
				h.parse(numberedCase(f, k*(n/60)))
			}
			h.settle()
			c.Count("operations", len(h.ops))
			if n := len(h.ops); n > c.st.Counters["max.history.length"] {
				c.st.Counters["max.history.length"] = n
			}
			c.Nontrivial("long " + f)
		}},
		section{"every-pair", fixed(12), func(c *Ctx, i int) {
			// every kind of input after every other kind, accepted, refused or cut short
			var all []string
			for _, s := range []string{"a@b", "\"q r\"<c@[d]>", "J.D (c) <@r,@s:a.\"b\"@c.d:25>", "=?x-up?Q?x?= =?utf-8?B?eQ==?= K <a@b>", "g:a@b,N<c@d>;,h:;", "a@b;<>;c@d", ",a@b,,g:,a@b,,c@d,;"} {
				rs := []rune(s)
				all = append(all, s, string(rs[:len(rs)/2]), string(rs[:len(rs)-1]), s+")", "("+s)
			}
			pool := build(all, []string{"Mon, 1 Jan 2001 01:02:03 +0102", "1 Feb 70 1:2 pst (x)", "1 Feb 1970 1:2", "Mon, 1 Jan 2001 01:02:03 +", "32 Foo", "1 Jan 2001 01:02:03 (x", "Tue, 3"})
			h := &history{c: c}
			h.setMode([]int{1, 2, 3, 0, 6, 7}[i%6])
			// an Eulerian walk meets every ordered pair once; 12 cases share it
			var alpha []rune
			for k := range pool {
				alpha = append(alpha, rune(0x4e00+k))
			}
			if i >= 6 {
				for a, b := 0, len(alpha)-1; a < b; a, b = a+1, b-1 {
					alpha[a], alpha[b] = alpha[b], alpha[a]
				}
			}
			pieces := deBruijn(alpha, len(alpha)*len(alpha)/6+2)
			for _, r := range pieces[min(i%6, len(pieces)-1)] {
				if len(c.st.Violations) == 0 {
					h.parse(pool[r-0x4e00])
				}
			}
			h.settle()
			c.Count("ordered.pairs", len(h.ops)-2)
			c.Nontrivial(strings.Join(h.ops, "\x00"))
		}},
		section{"held", fixed(len(heldForms)), func(c *Ctx, i int) {
			// long texts the caller keeps while others of the same size are parsed
			h := &history{c: c}
			h.setMode(1)
			n := 130
			if c.thorough {
				n = 1100
			}
			for k := 0; k < n && len(c.st.Violations) == 0; k++ {
				size := []int{70, 20, 66, 70}[k%4]
				if k%32 == 31 {
					size = []int{140, 270, 530, 1030}[k/32%4]
				}
				x := poolCase(strings.ReplaceAll(heldForms[i], "%", strings.Repeat(string(rune('a'+k%26)), size-4)+fmt.Sprintf("%04d", k)), false)
				if x == nil {
					c.Count("model.gaveup", 1)
					continue
				}
				h.parse(x)
			}
			h.settle()
			c.Nontrivial(fmt.Sprint("held", i))
		}},
		section{"many-calls", fixed(4), func(c *Ctx, i int) {
			// the number of calls so far, accepted or refused, makes no difference
			pool := [][]*hcase{
				build([]string{"a", "@", "(", ",", "a@", "<a", ")", "é"}, []string{"1", "Foo", "32", "(", ","}),
				build([]string{"a@b", "a@"}, []string{"1 Jan 2001 00:00 GMT", "1 Jan"}),
			}
			h := &history{c: c}
			h.setMode(1)
			n := []int{70000, 17000, 34000, 34000}[i]
			if c.thorough {
				n *= 10
			}
			for k := 0; k < n && len(c.st.Violations) == 0; k++ {
				if i == 1 || k%512 < 2 {
					h.parse(pool[1][k%4])
				} else if i == 0 {
					h.parse(pool[0][k%13])
				} else if i == 2 {
					h.parse(pool[0][k%8])
				} else {
					h.parse(pool[0][8+k%5])
				}
				if len(h.ops) > 1000 {
					h.ops = h.ops[900:]
				}
			}
			h.settle()
			c.Count("operations", n)
			if n > c.st.Counters["max.history.length"] {
				c.st.Counters["max.history.length"] = n
			}
			c.Nontrivial(fmt.Sprint("many-calls", i))
		}},
		section{"after-a-big-one", tiers(16, 120), func(c *Ctx, i int) {
			// a long or broken input must leave nothing behind
			small := build([]string{"a@b", "N <c@d>", "g:a@b;", "bad@", "=?x-up?Q?x?= <a@b>"}, []string{"1 Jan 2001 00:00 GMT", "32 X"})
			h := &history{c: c}
			h.setMode(1)
			big := []string{
				strings.Repeat("(", 400) + "a@b", "\"" + strings.Repeat("x ", 300), strings.Repeat("a@b,", 60) + "<", "g:" + strings.Repeat("a@b,", 40),
				strings.Repeat("=?utf-8?Q?x?= ", 20) + "<", strings.Repeat("\x00", 3000), strings.Repeat("a@b ", 1000), strings.Repeat("\xff", 1000),
				strings.Repeat("(", 100) + strings.Repeat(")", 100) + "a@b", "X <" + strings.Repeat("a.", 100) + "a@b>",
			}
			for k := 0; k < 4; k++ {
				b := big[(i+k*3)%len(big)]
				r := c.Addr(b)
				h.ops = append(h.ops, "list "+b)
				if r.Panic != nil {
					c.Fail("history", b, "no panic", r.addrString(), h.log()...)
				}
				if k%2 == 1 {
					c.Date(b)
				}
				for _, x := range small {
					h.parse(x)
				}
			}
			h.settle()
			c.Nontrivial(strings.Join(h.ops, "\x00"))
		}},
		section{"time-passes", fixed(1), func(c *Ctx, i int) {
			// results do not depend on when in the process's life they are made
			h := &history{c: c}
			h.setMode(1)
			pool := build([]string{"a@b", "=?x-up?Q?x?= <a@b>", "a@"}, []string{"1 Jan 01 00:00 GMT", "1 Jan 2001"})
			for k := 0; k < 12; k++ {
				for _, x := range pool {
					h.parse(x)
				}
				time.Sleep(150 * time.Millisecond)
			}
			h.settle()
			c.Nontrivial("time")
		}},
	)
}
