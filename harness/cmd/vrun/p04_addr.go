package main

import (
	"fmt"
	"strings"

	"vharness/ref"
)

type part struct{ src, val string }

// repeated is a thing that stands in a quoted string so many times.
type repeated struct {
	src, val string
	literal  bool // may also stand in a domain literal
}

func repeats(n int) []repeated {
	r := strings.Repeat
	return []repeated{
		{r("x\r\n ", n), r("x ", n), true}, {r("x\r\n\t", n) + "y", r("x\t", n) + "y", true}, {"y" + r(" ", n), "y" + r(" ", n), true}, {r("\t ", n) + "z", r("\t ", n) + "z", true},
		{r("\\\"", n), r("\"", n), false}, {r("\\\\", n), r("\\", n), false}, {r("\\a", n), r("a", n), false}, {r(".", n), r(".", n), true}, {r("(", n), r("(", n), true}, {r(")", n), r(")", n), true},
		{r("@", n), r("@", n), true}, {r("<", n) + r(">", n), r("<", n) + r(">", n), true}, {r(",", n), r(",", n), true}, {r("é", n), r("é", n), true}, {r("😀", n), r("😀", n), true}, {r("[", n), r("[", n), false}, {r("x y ", n), r("x y ", n), true},
	}
}

func repeatedComments(n int) []string {
	r := strings.Repeat
	return []string{r("(c)", n), r("(", n) + r(")", n), r(" (c) ", min(n, 1)) + r("(a@b) ", n), "(" + r("\\)", n) + ")", "(" + r("x\r\n ", n) + ")"}
}

func init() {
	locals := []part{
		{"a", "a"}, {"a.b", "a.b"}, {"a.b.c.d", "a.b.c.d"}, {"a.", "a."}, {"\"q\"", "q"}, {"\"q r\"", "q r"}, {"\"q\\\"r\"", "q\"r"},
		{"\"\"", ""}, {"\"a@b\"", "a@b"}, {"\"a\".b", "a.b"}, {"a.\"b c\"", "a.b c"}, {" a . b ", "a.b"}, {"(c)a(d)", "a"}, {"(c)\"q\"(d)", "q"},
		{"(c)a(d).(e)b(f)", "a.b"}, {"\"a\\\\b\"", "a\\b"}, {"\"a \"", "a "}, {"\" a\"", " a"}, {"\"a\r\n b\"", "a b"}, {"a+b=c", "a+b=c"}, {"=?x?q?y?=", "=?x?q?y?="},
		{"é", "é"}, {"😀.x", "😀.x"}, {"\"é 😀\"", "é 😀"}, {"\"a\".\"b\"", "a.b"}, {"A.B", "A.B"}, {"!#$%&'*+-/=?^_`{|}~", "!#$%&'*+-/=?^_`{|}~"},
		{"\"(c)\"", "(c)"}, {"\"<>\"", "<>"}, {"\"a,b;c:d\"", "a,b;c:d"}, {"\"[1]\"", "[1]"},
	}
	domains := []part{
		{"b", "b"}, {"b.c", "b.c"}, {"b.c.d.e", "b.c.d.e"}, {"b.", "b."}, {"[1.2.3.4]", "[1.2.3.4]"}, {"[IPv6:::1]", "[IPv6:::1]"}, {"[]", "[]"}, {"[ 1 2 ]", "[ 1 2 ]"},
		{"[1\r\n 2]", "[1 2]"}, {" b.c\r\n ", "b.c"}, {"(c)b(d)", "b"}, {"(c)[1](d)", "[1]"}, {"(c)b.c(d)", "b.c"}, {"B.C", "B.C"}, {"[a(b)c]", "[a(b)c]"},
		{"é.x", "é.x"}, {"xn--9ca", "xn--9ca"}, {"1.2", "1.2"}, {"[\"]", "[\"]"}, {"[<>,;@]", "[<>,;@]"}, {"b-c", "b-c"}, {"[é😀]", "[é😀]"},
	}
	ports := []part{{"", ""}, {":25", ":25"}, {":0", ":0"}, {":00587", ":00587"}}
	routes := []string{"@r:", "@r,@s:", "@r.s,,@t:", ", @r:", "@[1]:", " (c) @r , @s :", "@r,:", "@\"x\"r:"}
	routes = routes[:len(routes)-1]
	var angle = []func(string) string{
		func(s string) string { return s },
		func(s string) string { return "<" + s + ">" },
		func(s string) string { return "N <" + s + ">" },
		func(s string) string { return " (c) <" + s + "> (d) " },
		func(s string) string { return "x@y, \"N\"<" + s + ">" },
		func(s string) string { return "g:" + s + ";" },
	}
	lens := sweepSizes(48, 520)
	labels := sweepSizes(40, 130)
	counts := sweepSizes(18, 66)
	check := func(c *Ctx, kind string, form int, s, v string) {
		in := angle[form](s)
		want := one([]string{"", "", "N", "", "N", ""}[form], v)
		if form == 4 {
			want = append([]ref.Addr{{Address: "x@y"}}, want...)
		}
		c.ExpectAddrs(kind, in, want)
		c.Nontrivial(in)
		c.Sample("%q -> %q", in, v)
	}
	sections(&Prop{
		ID: "P04",
		Rule: "An input is an addr-spec rendered from the local part and domain it must give, bare, in angle brackets, named, with a route, in a list or a group. " +
			fmt.Sprintf("All %d local parts x %d domains (each with a rotating port and surroundings) and all routes are enumerated; lengths of local parts, labels, literals and ports and numbers of labels are swept; the rest is random. ", len(locals), len(domains)) +
			"Non-trivial: a distinct input.",
		MinNontrivial: fixed(1000),
	},
		dictAddrs(),
		section{"products", fixed(len(locals) * len(domains)), func(c *Ctx, i int) {
			l, d := locals[i%len(locals)], domains[i/len(locals)]
			p := ports[(i/3)%len(ports)]
			check(c, "product", i%len(angle), l.src+"@"+d.src+p.src, l.val+"@"+d.val+p.val)
			if c.thorough {
				for f := range angle {
					for _, p := range ports {
						check(c, "product", f, l.src+"@"+d.src+p.src, l.val+"@"+d.val+p.val)
					}
				}
			}
		}},
		section{"ports", fixed(120), func(c *Ctx, i int) {
			p := fmt.Sprint(c.rng.Intn(70000))
			if i < 60 {
				p = strings.Repeat("9", i+1)
			} else if i < 80 {
				p = strings.Repeat("0", i-59)
			}
			check(c, "port", i%len(angle), "a@b:"+p, "a@b:"+p)
			check(c, "port", (i+3)%len(angle), "a@[1:2]:"+p, "a@[1:2]:"+p)
		}},
		section{"routes", fixed(len(routes) * len(locals)), func(c *Ctx, i int) {
			r, l := routes[i%len(routes)], locals[i/len(routes)]
			d := domains[(i*7)%len(domains)]
			check(c, "route", 1+i%4, r+l.src+"@"+d.src, l.val+"@"+d.val)
		}},
		section{"long-routes", fixed(30), func(c *Ctx, i int) {
			r := strings.Repeat("@r.s,", i) + "@t:"
			check(c, "long-route", 1+i%4, r+"a@b", "a@b")
			check(c, "long-route", 1+i%4, strings.Repeat(",", i)+"@t"+strings.Repeat(",", i)+":a@b", "a@b")
		}},
		section{"empty-angle", fixed(1), func(c *Ctx, i int) {
			c.ExpectAddrs("empty-angle", "<>", one("", ""))
			c.ExpectAddrs("empty-angle", "N <>", one("N", ""))
			c.ExpectAddrs("empty-angle", " (c) <> ", one("", ""))
			c.ExpectAddrs("empty-angle", "N <>, M <a@b>", append(one("N", ""), one("M", "a@b")...))
		}},
		section{"lengths", fixed(len(lens)), func(c *Ctx, i int) {
			n := lens[len(lens)-1-i]
			w := rep(n)
			f := i % len(angle)
			check(c, "quoted-local-length", f, "\""+w+"\"@b", w+"@b")
			check(c, "literal-length", f, "a@["+w+"]", "a@["+w+"]")
			if n == 0 {
				return
			}
			check(c, "local-length", f, w+"@b", w+"@b")
			check(c, "domain-length", f, "a@"+w, "a@"+w)
			if n <= 130 {
				check(c, "both-lengths", f, w+"@"+w+"."+w, w+"@"+w+"."+w)
			}
		}},
		section{"labels", fixed(len(labels)), func(c *Ctx, i int) {
			n := labels[len(labels)-1-i]
			if n == 0 {
				return
			}
			var ls, obs []string
			for k := 0; k < n; k++ {
				ls = append(ls, fmt.Sprintf("l%d", k))
				obs = append(obs, []string{"l%d", "\"l%d\"", " l%d ", "(c)l%d"}[(k+i)%4])
				obs[k] = fmt.Sprintf(obs[k], k)
			}
			f := i % len(angle)
			d := strings.Join(ls, ".")
			check(c, "labels", f, d+"@x", d+"@x")
			check(c, "labels", f, "x@"+d, "x@"+d)
			check(c, "labels-dot", f, "x@"+d+".", "x@"+d+".")
			if n <= 80 {
				check(c, "obs-labels", f, strings.Join(obs, ".")+"@x", d+"@x")
			}
		}},
		section{"counts", fixed(len(counts)), func(c *Ctx, i int) {
			// so many folds, escapes, spaces and so on in one place
			n := counts[len(counts)-1-i]
			for k, r := range repeats(n) {
				check(c, "counts", (i+k)%len(angle), "\""+r.src+"\"@b", r.val+"@b")
				check(c, "counts", (i+k+1)%len(angle), "\"x\".\""+r.src+"\"@b", "x."+r.val+"@b")
				if r.literal {
					check(c, "counts", (i+k+2)%len(angle), "a@["+r.src+"]", "a@["+r.val+"]")
				}
			}
			for k, r := range repeatedComments(n) {
				check(c, "counts", (i+k)%len(angle), r+"a"+r+"@"+r+"b"+r, "a@b")
			}
		}},
		section{"random", tiers(2600, 30000), func(c *Ctx, i int) {
			c.g.Plain = i%6 == 0
			c.g.NoEncoded = true
			var s, v string
			if c.rng.Intn(2) == 0 {
				s, v = c.g.Spec()
			} else {
				s, v = c.g.Angle()
			}
			if c.Construct(s, one("", v), nil, 1500) {
				c.ExpectAddrs("random", s, one("", v))
				c.Nontrivial(s)
				c.Sample("%q -> %q", s, v)
			}
		}},
	)
}
