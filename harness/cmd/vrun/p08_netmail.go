package main

import (
	"fmt"
	"io"
	"net/mail"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

func init() {
	lens := sweepSizes(80, 600)
	sections(&Prop{
		ID: "P08",
		Rule: "A case formats net/mail addresses with Address.String and parses the text back; the same name and address must return. Names are any text (all ASCII characters " +
			"including controls, non-ASCII, blanks at the ends, syntax characters, encoded-word look-alikes, lengths swept across the points where the formatter folds names into several encoded words), " +
			"local parts any printable text, domains dot-atoms or literals. Non-trivial: a distinct formatted text.",
		MinNontrivial: fixed(1000),
		Assume:        []string{"net/mail formats an address the way RFC 5322 and RFC 2047 define (the Go standard library is trusted)"},
	},
		dictRoundtrip(),
		section{"one-character", fixed(128 + 64), func(c *Ctx, i int) {
			r := rune(i)
			if i >= 128 {
				r = c.g.Rune()
			}
			for _, n := range []string{string(r), "a" + string(r) + "b", string(r) + "a", "a" + string(r), "é" + string(r)} {
				c.roundtrip("name-character", mail.Address{Name: n, Address: "a@b.c"})
			}
			if i >= 0x20 && i != 0x7f {
				for _, l := range []string{string(r), "a" + string(r) + "b", string(r) + "a", "a" + string(r)} {
					c.roundtrip("local-character", mail.Address{Name: "N", Address: l + "@b.c"})
				}
			}
		}},
		section{"lengths", fixed(len(lens)), func(c *Ctx, i int) {
			n := lens[len(lens)-1-i]
			if n <= 220 || c.thorough {
				c.roundtrip("name-length", mail.Address{Name: rep(n) + "é", Address: "a@b"})
				c.roundtrip("name-length", mail.Address{Name: strings.Repeat("日", n/3), Address: "a@b"})
			}
			c.roundtrip("name-length", mail.Address{Name: rep(n), Address: "a@b"})
			if n > 0 && n <= 130 {
				c.roundtrip("local-length", mail.Address{Name: "N", Address: rep(n) + "@b"})
				c.roundtrip("local-length", mail.Address{Address: rep(n) + " x@b"})
			}
		}},
		section{"tricky", fixed(1), func(c *Ctx, _ int) {
			for _, n := range []string{"", " ", "  ", " a", "a ", " a ", "\ta", "a\t", "=?utf-8?Q?x?=", "a =?utf-8?Q?x?= b", "(c)", "\"", "\\", "\\\\", "\\\"", "a,b", "a;b", "g:", "<x@y>", "a@b", ".", "@", "J. Doe", "\r\n", "a\r\n b", "a\nb", "é ", " é", "_", "a_b é", "é=é", "é?é", "?=", "=?", "=?é?="} {
				c.roundtrip("tricky-name", mail.Address{Name: n, Address: "a@b"})
			}
			for _, l := range []string{"a b", "a.b", "a..b", ".a", "a.", " a", "a ", "a\"b", "a\\b", "a@b", "(c)", "<>", "a,b", "=?utf-8?Q?x?=", "é", "é é", "\"", "\\", "[x]", ";", ":", "a+b"} {
				for _, d := range []string{"b", "b.c", "[1.2.3.4]", "[IPv6:::1]", "é.x"} {
					c.roundtrip("tricky-local", mail.Address{Name: "N", Address: l + "@" + d})
					c.roundtrip("tricky-local", mail.Address{Address: l + "@" + d})
				}
			}
		}},
		section{"random", tiers(2000, 20000), func(c *Ctx, i int) {
			var list []mail.Address
			for n := 1 + i%3; n > 0; n-- {
				list = append(list, c.anyAddress())
			}
			c.roundtrip("random", list...)
		}},
		section{"with-reader", tiers(100, 1000), func(c *Ctx, i int) {
			// an installed CharsetReader must not matter: the formatter uses utf-8
			rfc5322.CharsetReader = func(cs string, r io.Reader) (io.Reader, error) {
				c.Fail("charset-reader-for-utf-8", "", "no call", cs)
				return r, nil
			}
			a := c.anyAddress()
			a.Name += "é"
			c.roundtrip("with-reader", a)
		}},
	)
}

// anyAddress is an address net/mail can format.
func (c *Ctx) anyAddress() mail.Address {
	g := c.g
	var a mail.Address
	if g.Intn(6) > 0 {
		var b strings.Builder
		for n := g.Size(12, 150); n > 0; n-- {
			switch g.Intn(6) {
			case 0:
				b.WriteRune(g.Rune())
			case 1:
				b.WriteByte(byte(g.Intn(128)))
			case 2:
				b.WriteByte(gen.Pick(g, byte(' '), ' ', '\t', '"', '\\', '_', '=', '?', '(', '<', '@'))
			default:
				b.WriteByte(gen.Qtext[g.Intn(len(gen.Qtext))])
			}
		}
		a.Name = b.String()
		if g.Intn(3) == 0 {
			a.Name = strings.Map(func(r rune) rune {
				if r < 0x20 || r > 0x7e {
					return 'x'
				}
				return r
			}, a.Name)
		}
	}
	var l strings.Builder
	for n := g.Size(6, 60); n > 0; n-- {
		switch g.Intn(8) {
		case 0:
			l.WriteRune(g.Rune())
		case 1:
			l.WriteByte((gen.Vchar + " ")[g.Intn(len(gen.Vchar)+1)])
		case 2:
			l.WriteByte('.')
		default:
			l.WriteByte(gen.Atext[g.Intn(len(gen.Atext))])
		}
	}
	d := g.Atom(20)
	for n := g.Intn(3); n > 0; n-- {
		d += "." + g.Atom(10)
	}
	if g.Intn(6) == 0 {
		d = fmt.Sprintf("[%d.%d.%d.%d]", g.Intn(256), g.Intn(256), g.Intn(256), g.Intn(256))
	}
	a.Address = l.String() + "@" + d
	return a
}

// roundtrip formats, parses and compares.
func (c *Ctx) roundtrip(kind string, list ...mail.Address) {
	var parts []string
	var want []ref.Addr
	for _, a := range list {
		s := a.String()
		if strings.Contains(a.Name, "\x00") && strings.Contains(s, "\x00") {
			return
		}
		parts = append(parts, s)
		want = append(want, ref.Addr{Name: a.Name, Address: a.Address})
	}
	in := strings.Join(parts, ", ")
	c.ExpectAddrs(kind, in, want)
	c.Nontrivial(in)
	c.Sample("%q", in)
}
