package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"strings"

	"vharness/ref"
)

//go:embed corpus/isemail.txt
var isemailText string

func isemail() []string {
	var out []string
	for _, l := range strings.Split(strings.TrimSpace(isemailText), "\n") {
		var s string
		if json.Unmarshal([]byte(l), &s) == nil {
			out = append(out, s)
		}
	}
	return out
}

// seedsAddr are sentences that between them use every production; the single
// edit neighbourhood of each is explored exhaustively.
var seedsAddr = []string{
	`a@b`,
	`a.b@[1.2]`,
	`"q\r"@d:25`,
	`J D <a@b>`,
	`"a b"<c@d>`,
	`=?utf-8?Q?x=20?= <a@b>`,
	`g:a@b,<c@d>;`,
	`a@b;c@d`,
	`(c)a(d)@b`,
	`<@r,@s:a@b>`,
	`,a@b,,`,
	`J.D@x <a@b>`,
	`"x".y@b`,
	"a\r\n b <c@d>",
	`<>`,
	`"g:a@b";`,
}

func init() {
	short := []string{"a", "1", ".", "@", "<", ">", ",", ";", ":", "\"", "(", ")", "[", "]", "\\", " ", "\r", "\n", "=", "?", "é", "\x01"}
	pow := func(n, k int) int {
		p := 1
		for ; k > 0; k-- {
			p *= n
		}
		return p
	}
	const block = 500
	blocks := func(n int) int { return (n + block - 1) / block }
	exh := func(k int) section {
		total := pow(len(short), k)
		return section{"all-strings-" + string(rune('0'+k)), func(t bool) int {
			if k >= 4 && !t {
				return blocks(total) / 6 // every sixth block
			}
			return blocks(total)
		}, func(c *Ctx, i int) {
			if k >= 4 && !c.thorough {
				i = i*6 + int(uint64(c.seed)%6)
			}
			for j := i * block; j < min(total, (i+1)*block); j++ {
				var b strings.Builder
				for v, n := j, 0; n < k; n++ {
					b.WriteString(short[v%len(short)])
					v /= len(short)
				}
				c.language(b.String(), "all-short-strings")
			}
		}}
	}
	longs := []int{250, 256, 320, 500, 512, 998, 1000, 1024, 2000, 2048}
	for _, n := range vocab().ints {
		if n > 12 && n <= 5000 {
			longs = append(longs, int(n), int(n)+1)
		}
	}
	edits := func(name string, seeds []string, full func(bool) bool) section {
		type edit struct{ seed, pos, op int }
		var all []edit
		for s, x := range seeds {
			for p := 0; p <= len([]rune(x)); p++ {
				all = append(all, edit{s, p, 0}, edit{s, p, 1}, edit{s, p, 2})
			}
		}
		return section{name, fixed(len(all)), func(c *Ctx, i int) {
			e := all[i]
			rs := []rune(seeds[e.seed])
			if e.op == 2 { // delete one, delete two, truncate
				if e.pos < len(rs) {
					c.language(string(rs[:e.pos])+string(rs[e.pos+1:]), "edit")
					c.language(string(rs[:e.pos]), "edit")
				}
				return
			}
			step := 1
			if !full(c.thorough) {
				step = 4 // a quarter of the characters, rotating with the position
			}
			for ch := (e.pos + e.op + e.seed) % step; ch < 130; ch += step {
				r := rune(ch)
				if ch == 128 {
					r = 'é'
				} else if ch == 129 {
					r = '😀'
				}
				if e.op == 0 {
					c.language(string(rs[:e.pos])+string(r)+string(rs[e.pos:]), "edit")
				} else if e.pos < len(rs) {
					c.language(string(rs[:e.pos])+string(r)+string(rs[e.pos+1:]), "edit")
				}
			}
		}}
	}
	sections(&Prop{
		ID: "P01",
		Rule: "An input is an address list built from the grammar, a mutation of one, a string of grammar tokens, every string of up to 3 (thorough 4) " +
			"characters over 22 character classes, every one-character edit of 16 seed sentences, and the is-email corpus. The reference model (an interpreter " +
			"of the published grammar with its own evaluator) says whether it must be accepted and what it denotes; the library's verdict and value are compared. " +
			"Non-trivial: a distinct input of at least 3 characters the model decided.",
		MinNontrivial: fixed(2000),
		Assume:        []string{"the published grammar RFC5322Parser.g4 (frozen copy) is the definition of the language"},
	},
		section{"isemail", fixed(1), func(c *Ctx, _ int) {
			for _, s := range isemail() {
				c.language(s, "corpus")
				c.language("N <"+s+">", "corpus")
			}
		}},
		section{"seeds", fixed(len(seedsAddr)), func(c *Ctx, i int) {
			if n, _ := c.language(seedsAddr[i], "seed"); !n {
				c.Broken("seed %q is not in the language", seedsAddr[i])
			}
		}},
		dictLanguage(seedsAddr, func(c *Ctx, s string) { c.language(s, "dictionary") }),
		scaled(800, false, func(c *Ctx, f family, s string) {
			c.language(s, "scaled")
			if len(s) > c.st.Counters["max.scaled.bytes"] {
				c.st.Counters["max.scaled.bytes"] = len(s)
			}
		}),
		section{"long", fixed(len(longs) * 5), func(c *Ctx, i int) {
			// accepted however long: lines of mail are, but text is not, limited
			n := longs[len(longs)-1-i/5]
			x := strings.Repeat("x", n)
			switch i % 5 {
			case 0:
				c.ExpectAddrs("long", "a@["+x+"]", one("", "a@["+x+"]"))
				c.language("a@["+x, "long-refused")
			case 1:
				c.ExpectAddrs("long", strings.Repeat(",", n)+"a@b", one("", "a@b"))
				c.language(strings.Repeat(",", n), "long-refused")
			case 2:
				c.ExpectAddrs("long", "a@b("+x+")", one("", "a@b"))
				if r := c.Addr("a@b(" + x); r.Err == nil {
					c.Fail("long-refused", "a@b("+x, "an error: the comment is open", r.addrString())
				}
			case 3:
				c.ExpectAddrs("long", strings.Repeat(" ", n)+"a@b"+strings.Repeat("(c)\r\n ", n/6), one("", "a@b"))
				if r := c.Addr(strings.Repeat(" ", n)); r.Err == nil {
					c.Fail("long-refused", strings.Repeat(" ", n), "an error: no address", r.addrString())
				}
			case 4:
				if n <= 1100 {
					c.ExpectAddrs("long", x+"@b, <"+x+"@c>", append(one("", x+"@b"), one("", x+"@c")...))
				}
				if r := c.Addr(x); r.Err == nil {
					c.Fail("long-refused", x, "an error: no at-sign", r.addrString())
				}
				if r := c.Addr("\"" + x); r.Err == nil {
					c.Fail("long-refused", "\""+x, "an error: the quoted string is open", r.addrString())
				}
			}
			c.Nontrivial(fmt.Sprint("long", n, i%5))
			if n > c.st.Counters["max.long"] {
				c.st.Counters["max.long"] = n
			}
		}},
		section{"late", fixed(len(lateSizes()) * len(lateLeads)), func(c *Ctx, i int) {
			// an error is an error on any line, in any column, after any amount of good text
			n, l := lateSizes()[i/len(lateLeads)], lateLeads[i%len(lateLeads)]
			if l.max > 0 && n > l.max {
				return
			}
			lead := l.make(n)
			if n <= 12 && !c.Construct(lead+"a@b"+l.end, append(l.want(n), one("", "a@b")...), nil, 0) {
				return
			}
			c.ExpectAddrs("late", lead+"a@b"+l.end, append(append([]ref.Addr{}, l.want(n)...), one("", "a@b")...))
			for k, bad := range []string{"a@", "a@b c", "a@b>", "<a@b", "a@b\"", "a@b)", "(a@b", "@b", "a", "a@b@c", "\x00a@b", "\"a@b", "a@[b", "a@b\r\n", "a@b:x", "g:a@b", "a;b@c", "=?utf-8?q?x?="} {
				if !c.thorough && (k+i)%3 != 0 {
					continue
				}
				in := lead + bad + l.end
				if t, decided := ref.Parse("addressList", bad+l.end); t != nil || !decided {
					continue
				}
				if r := c.Addr(in); r.Panic != nil || r.Err == nil || len(r.Addrs) > 0 {
					c.Fail("late-error", in, "an error and no addresses", r.addrString())
				}
				c.Count("late.errors", 1)
			}
			c.Nontrivial(fmt.Sprint("late", i))
		}},
		exh(1), exh(2), exh(3), exh(4),
		edits("edits", seedsAddr, func(t bool) bool { return t }),
		section{"built", tiers(1000, 12000), func(c *Ctx, i int) {
			src, want := c.g.List(1 + c.rng.Intn(3))
			if c.Construct(src, want, nil, 0) {
				c.ExpectAddrs("must-accept", src, want)
				c.Nontrivial(src)
				c.Sample("%q -> %s", src, fmtWant(want))
			}
		}},
		section{"mutated", tiers(1200, 25000), func(c *Ctx, i int) {
			src, _ := c.g.List(1 + c.rng.Intn(2))
			for k := 0; k < 4; k++ {
				c.language(c.g.Mutate(src), "mutated")
			}
		}},
		section{"soup", tiers(1500, 40000), func(c *Ctx, i int) {
			for k := 0; k < 20; k++ {
				c.language(c.g.Soup(4+k/2), "soup")
			}
		}},
		section{"pairs", tiers(400, 6000), func(c *Ctx, i int) {
			// two sentences glued by a token: what follows a complete sentence
			a, b := seedsAddr[c.rng.Intn(len(seedsAddr))], seedsAddr[c.rng.Intn(len(seedsAddr))]
			c.language(a+c.g.Soup(1)+b, "glued")
		}},
	)
}

// late leads are valid text of a given size before an error.
type lateLead struct {
	make func(n int) string
	want func(n int) []ref.Addr
	end  string
	max  int
}

var none = func(int) []ref.Addr { return nil }

var lateLeads = []lateLead{
	{make: func(n int) string { return strings.Repeat(" ", n) }, want: none},
	{make: func(n int) string { return " \r\n" + strings.Repeat(" ", n) }, want: none},
	{make: func(n int) string { return strings.Repeat("\r\n\t,", n) }, want: none, end: " "},
	{make: func(n int) string { return strings.Repeat(",", n) }, want: none, end: ","},
	{make: func(n int) string { return "(" + strings.Repeat("c ", n) + ")" }, want: none},
	{make: func(n int) string { return strings.Repeat("(", n) + strings.Repeat(")", n) }, want: none, max: 150},
	{make: func(n int) string { return strings.Repeat("(c)\r\n ", n) }, want: none, max: 300},
	{make: func(n int) string { return strings.Repeat("c@d,\r\n ", n) }, want: func(n int) (as []ref.Addr) {
		for range n {
			as = append(as, one("", "c@d")...)
		}
		return
	}, max: 70},
	{make: func(n int) string { return strings.Repeat("g:;,", n) }, want: none, max: 140},
}

// lateSizes are small sizes, sizes people choose as limits, and fresh numbers.
func lateSizes() (ns []int) {
	for n := 1; n <= 20; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 24, 31, 32, 33, 40, 48, 50, 63, 64, 65, 72, 76, 77, 78, 79, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 998, 999, 1000, 1024, 1025)
	for _, n := range vocab().ints {
		if n > 0 && n < 3000 {
			ns = append(ns, int(n), int(n)+1)
		}
	}
	return ns
}

// language compares verdict and value with the model.
func (c *Ctx) language(s, kind string) (accepted, decided bool) {
	accepted, decided = c.AgreeAddrs(kind, s, nil)
	if decided && len(s) >= 3 {
		c.Nontrivial(s)
	}
	if accepted {
		c.Count("accepted."+kind, 1)
		c.Sample("%q is accepted", s)
	} else {
		c.Count("rejected."+kind, 1)
	}
	return
}
