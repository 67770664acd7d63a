package main

import (
	"strings"
	"unicode"

	"vharness/gen"
)

// place is a position in an address where characters stand, and which of the
// ASCII characters may.
type place struct {
	name     string
	ascii    string // allowed as they are
	pre      string
	post     string
	resPre   string
	resPost  string
	inName   bool
	nameWith string // expected name when the place is in the address
	addr     string // expected address when the place is in the name
	escape   bool
}

var places = []place{
	{name: "atom", ascii: gen.Atext, pre: "x", post: "y <a@b>", resPre: "x", resPost: "y", inName: true, addr: "a@b"},
	{name: "quoted", ascii: gen.Qtext + gen.CTL + " \t", pre: "\"", post: "\"<a@b>", inName: true, addr: "a@b"},
	{name: "quoted-pair", ascii: gen.Vchar + gen.CTL + " \t\x00\r\n", pre: "\"", post: "\"<a@b>", inName: true, addr: "a@b", escape: true},
	{name: "local", ascii: gen.Atext, post: "@b", resPost: "@b"},
	{name: "local-dotted", ascii: gen.Atext, pre: "x.", post: ".y@b", resPre: "x.", resPost: ".y@b"},
	{name: "quoted-local", ascii: gen.Qtext + gen.CTL + " \t", pre: "<\"", post: "\"@b>", resPost: "@b"},
	{name: "quoted-local-pair", ascii: gen.Vchar + gen.CTL + " \t\x00\r\n", pre: "\"", post: "\"@b", resPost: "@b", escape: true},
	{name: "obs-local", ascii: gen.Atext, pre: "\"q\".", post: "@b", resPre: "q.", resPost: "@b"},
	{name: "domain", ascii: gen.Atext, pre: "a@", resPre: "a@"},
	{name: "domain-dotted", ascii: gen.Atext, pre: "N <a@x.", post: ".y>", resPre: "a@x.", resPost: ".y", nameWith: "N"},
	{name: "literal", ascii: gen.Dtext + " \t", pre: "a@[", post: "]", resPre: "a@[", resPost: "]"},
}

// charsAt monitors that exactly these characters come back from a place.
func (c *Ctx) charsAt(p *place, s string) {
	src := s
	if p.escape {
		var b strings.Builder
		for _, r := range s {
			b.WriteByte('\\')
			b.WriteRune(r)
		}
		src = b.String()
	}
	in := p.pre + src + p.post
	v := p.resPre + s + p.resPost
	if p.inName {
		c.ExpectAddrs(p.name, in, one(v, p.addr))
	} else {
		c.ExpectAddrs(p.name, in, one(p.nameWith, v))
	}
	n := 0
	for range s {
		n++
	}
	c.Count("characters."+p.name, n)
	c.Nontrivial(in)
	c.Sample("%s: %q", p.name, in)
}

func init() {
	type pairBatch struct {
		p int
		s string
	}
	var pairs []pairBatch
	for k := range places {
		if places[k].name == "local-dotted" || places[k].name == "domain-dotted" || places[k].name == "obs-local" {
			continue
		}
		al := []rune(places[k].ascii + "é")
		for _, s := range deBruijn(al, 48) {
			pairs = append(pairs, pairBatch{k, s})
		}
	}
	// a quoted string may not hold two separate runs of whitespace with nothing
	// between them, but plain runs are fine, so pairs of blanks are fine too.
	var bmp []string
	const per = 64
	for r := rune(0x80); r < 0x10000; {
		var b strings.Builder
		for k := 0; k < per && r < 0x10000; r++ {
			if r < 0xd800 || r > 0xdfff {
				b.WriteRune(r)
				k++
			}
		}
		bmp = append(bmp, b.String())
	}
	// special characters have a meaning of their own to Unicode-aware code:
	// blanks, invisible ones, punctuation, letters that change under folding.
	var special, edgy []rune
	for r := rune(0x80); r <= 0x2ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		sp := unicode.In(r, unicode.Z, unicode.Cf, unicode.Cc, unicode.Pd, unicode.Pi, unicode.Pf, unicode.Ps, unicode.Pe, unicode.Pc) || r >= 0xff00 && r <= 0xff5e && !unicode.IsLetter(r) || r >= 0xfdd0 && r <= 0xfdef || r&0xfffe == 0xfffe || r >= 0xfff0 && r <= 0xffff && r != 0xfffd ||
			r == 0x130 || r == 0x131 || r == 0x17f || r == 0x212a || r == 0x2126 || r == 0x1e9e || r == 0x300 || r == 0x301 || r == 0xfe0f || r == 0x3002 || r == 0xff61
		for _, w := range vocab().fresh {
			sp = sp || w == string(r)
		}
		if sp {
			edgy = append(edgy, r)
		}
		if sp || unicode.ToLower(r) != r || unicode.ToUpper(r) != r || r < 0x370 || unicode.In(r, unicode.Mn, unicode.Nd, unicode.Po, unicode.Sk, unicode.Lm) {
			special = append(special, r)
		}
	}
	chunks := func(rs []rune) (out []string) {
		for ; len(rs) > 48; rs = rs[48:] {
			out = append(out, string(rs[:48]))
		}
		return append(out, string(rs))
	}
	specials := chunks(special)
	// sequences that normalisation, shaping or segmentation treat as one
	var together []string
	for _, m := range "\u0300\u0301\u0302\u0303\u0304\u0306\u0307\u0308\u030a\u030b\u030c\u0323\u0327\u0328\u0338" {
		for _, l := range "aceghiknorsuyzAEIOUSZ" {
			together = append(together, string([]rune{l, m}))
		}
	}
	for _, l := range "αεηιουωΑИиеЕйкカキハひほشयकนก" {
		for _, m := range "\u0301\u0308\u0306\u0345\u3099\u309a\u0651\u093c\u0e4d\u200d\u200c" {
			together = append(together, string([]rune{l, m}))
		}
	}
	for l := rune(0x1100); l < 0x1113; l += 3 {
		for v := rune(0x1161); v < 0x1176; v += 4 {
			together = append(together, string([]rune{l, v}), string([]rune{l, v, 0x11a8 + v - 0x1161}))
		}
	}
	together = append(together, "a\u0323\u0301", "a\u0301\u0323", "\u1e69\u0301", "\u00e9\u0301", "\u01d5\u0300", "\uac00\u11a8", "لا", "لله", "क्ष", "श्री", "கொ", "ေ", "👩\u200d💻", "🏳\ufe0f\u200d🌈", "👍🏽", "🇩🇪", "🇫🇷🇩🇪", "1\ufe0f\u20e3", "☺\ufe0e", "☺\ufe0f", "葛\U000e0100", "a\u034fb", "\u202aa\u202c", "a\u00adb", "a\u200bb", "a\u200db", "a\u2060b", "\u200fא", "ﬁ\u0301", "ǆ", "Ǆ", "ß\u0301", "ſs", "İi", "ıI", "ΣΑΣ", "ς", "ﬃ", "①Ⅳ", "ｱﾞ", "ガ", "¼½", "²³", "µμ", "ΩΩ", "KK", "ÅÅ", "\ufb1d", "\u2adc", "\u0958", "𝅗𝅥", "\u0344", "\u0374", "\u037e", "\u0387", "\u1fef", "\u2000\u2001", "\u2329\u232a", "\uf900\u2f800", "\U0002f800")
	var seqs, letterMarks []string
	for n := 0; n < len(together); n += 24 {
		seqs = append(seqs, strings.Join(together[n:min(n+24, len(together))], ""), strings.Join(together[n:min(n+24, len(together))], "x"))
	}
	for m := rune(0x300); m < 0x370; m++ {
		var b strings.Builder
		for l := 'a'; l <= 'z'; l++ {
			b.WriteRune(l &^ (0x20 * (m & 1)))
			b.WriteRune(m)
		}
		letterMarks = append(letterMarks, b.String())
	}
	// symbols with variation selectors, joiners, skin tones and keycaps
	var variations []string
	vary := func(rs []rune, marks string) {
		var b []rune
		for _, m := range marks {
			for _, r := range rs {
				if b = append(b, r, m); len(b) >= 60 {
					variations, b = append(variations, string(b)), nil
				}
			}
		}
		if len(b) > 0 {
			variations = append(variations, string(b))
		}
	}
	var symbols []rune
	for _, u := range [][2]rune{{0xa9, 0xa9}, {0xae, 0xae}, {0x203c, 0x203c}, {0x2049, 0x2049}, {0x2122, 0x2122}, {0x2139, 0x2139}, {0x2190, 0x21af}, {0x2300, 0x2330}, {0x23cf, 0x23fa}, {0x24c2, 0x24c2}, {0x25a0, 0x25ff}, {0x2600, 0x27bf}, {0x2934, 0x2935}, {0x2b05, 0x2b07}, {0x2b1b, 0x2b1c}, {0x2b50, 0x2b55}, {0x3030, 0x3030}, {0x303d, 0x303d}, {0x3297, 0x3299}, {0x1f004, 0x1f004}, {0x1f170, 0x1f19a}, {0x1f1e6, 0x1f1ff}, {0x1f300, 0x1f64f}, {0x1f680, 0x1f6ff}, {0x1f900, 0x1f9ff}} {
		for r := u[0]; r <= u[1]; r++ {
			symbols = append(symbols, r)
		}
	}
	vary(symbols, "\ufe0f")
	vary([]rune("☎☺❤❄✈©®™#*0159👩👍🏳🇩"), "\ufe0e\ufe0f\u200d\u20e3\U0001f3fb\U0001f3ff\u200b\U000e0020\U000e007f\u0301")
	rev := func(s string) string {
		rs := []rune(s)
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		return string(rs)
	}
	sections(&Prop{
		ID: "P09",
		Rule: "A case puts known characters into one of 11 places (atom, quoted string, quoted pair, local part, domain, literal, ...) and expects exactly them back: every ASCII character a place allows alone and " +
			"in context, every ordered pair of them (de Bruijn sequences), every non-ASCII character of the BMP, a sample of the others (all of them in the thorough tier), every kind of malformed UTF-8. " +
			"Characters a place does not allow must be refused, not dropped. Non-trivial: a distinct input.",
		MinNontrivial: fixed(1500),
	},
		section{"single", fixed(129 * len(places)), func(c *Ctx, i int) {
			p := &places[i/129]
			r := rune(i % 129)
			if r == 128 {
				r = 'é'
			}
			s := string(r)
			if r >= 128 || strings.ContainsRune(p.ascii, r) {
				c.charsAt(p, s)
				c.charsAt(p, "k"+s)
				c.charsAt(p, s+"k")
				c.charsAt(p, "k"+s+"k")
				c.charsAt(p, s+s)
				return
			}
			// not allowed here: it may end the place or be refused, as the grammar says
			for _, t := range []string{s, "k" + s, s + "k", "k" + s + "k", s + s} {
				if p.escape {
					t = "\\" + t
				}
				c.language(p.pre+t+p.post, "not-allowed-here")
			}
		}},
		section{"pairs", func(t bool) int {
			return len(pairs)
		}, func(c *Ctx, i int) {
			if strings.Contains(pairs[i].s, "=?") && places[pairs[i].p].inName && places[pairs[i].p].name == "atom" {
				c.Count("pairs-with-encoded-look", 1)
			}
			c.charsAt(&places[pairs[i].p], pairs[i].s)
		}},
		section{"bmp", func(t bool) int {
			if t {
				return len(bmp) * len(places)
			}
			return len(bmp) * 3
		}, func(c *Ctx, i int) {
			b := i % len(bmp)
			k := (i/len(bmp) + b*3 + int(uint64(c.seed)%11)) % len(places)
			s := bmp[b]
			if b%2 == 1 {
				s = rev(s)
			}
			c.charsAt(&places[k], s)
		}},
		section{"special", fixed(len(specials) * len(places)), func(c *Ctx, i int) {
			// every special character in every place
			c.charsAt(&places[i%len(places)], specials[i/len(places)])
		}},
		section{"sequences", fixed(len(seqs) * len(places)), func(c *Ctx, i int) {
			// characters that belong together for Unicode stay as they are
			c.charsAt(&places[i%len(places)], seqs[i/len(places)])
		}},
		section{"variations", fixed(len(variations)), func(c *Ctx, i int) {
			c.charsAt(&places[(i+int(uint64(c.seed)%11))%len(places)], variations[i])
		}},
		section{"letters-marks", fixed(len(letterMarks)), func(c *Ctx, i int) {
			c.charsAt(&places[(i+int(uint64(c.seed)%11))%len(places)], letterMarks[i])
		}},
		section{"edges", fixed(len(edgy)), func(c *Ctx, i int) {
			// special characters where a text begins and ends
			r := string(edgy[i])
			for k := range places {
				c.charsAt(&places[k], r+"k"+r)
				if (i+k)%3 == 0 || c.thorough {
					c.charsAt(&places[k], r)
					c.charsAt(&places[k], "k"+r)
					c.charsAt(&places[k], r+"k")
					c.charsAt(&places[k], r+r)
				}
			}
			for k, p := range []string{"%s <a@b>", "\"%s\"<a@b>", "%s.%s <a@b>", "M %s M <a@b>"} {
				w := strings.ReplaceAll(strings.ReplaceAll(p, " <a@b>", ""), "%s", r+"k"+r)
				if k == 1 {
					w = r + "k" + r
				}
				c.ExpectAddrs("edge", strings.ReplaceAll(p, "%s", r+"k"+r), one(w, "a@b"))
			}
			c.ExpectAddrs("edge", "<"+r+"k"+r+"@"+r+"k"+r+">", one("", r+"k"+r+"@"+r+"k"+r))
			c.ExpectAddrs("edge", "("+r+")<@"+r+":a@["+r+"k"+r+"]>("+r+")", one("", "a@["+r+"k"+r+"]"))
		}},
		section{"astral", tiers(1600, 16384), func(c *Ctx, i int) {
			k := i % len(places)
			var b strings.Builder
			for n := 0; n < per; n++ {
				r := rune(0x10000 + i*per + n)
				if !c.thorough {
					r = 0x10000 + rune(c.rng.Intn(0x100000))
					if n == 0 {
						r = 0x10000 + rune(i%17)<<16
						if r > 0x10ffff {
							r = 0x10ffff
						}
					}
				}
				b.WriteRune(r)
			}
			c.charsAt(&places[k], b.String())
		}},
		section{"mixed", tiers(700, 4000), func(c *Ctx, i int) {
			p := &places[i%len(places)]
			var b strings.Builder
			for n := 1 + c.rng.Intn(40); n > 0; n-- {
				if c.rng.Intn(3) == 0 {
					b.WriteRune(c.g.Rune())
				} else {
					b.WriteByte(p.ascii[c.rng.Intn(len(p.ascii))])
				}
			}
			if s := b.String(); !strings.Contains(s, "=?") {
				c.charsAt(p, s)
			}
		}},
		section{"malformed-utf-8", fixed(300), func(c *Ctx, i int) {
			bad := []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc3", "\xe0\x80\x80", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xbf", "\xf0\x80\x80\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8", "\xfe", "\xff", "\xc3\xc3\xa9", "\xe6\x97a", "\xf0\x9f\x98\x80\x80"}
			p := &places[i%len(places)]
			if p.escape {
				return
			}
			s := "k" + bad[i%len(bad)] + []string{"", "z", "é", bad[(i*7)%len(bad)]}[i%4]
			want := string([]rune(s)) // each malformed byte reads as U+FFFD
			in := p.pre + s + p.post
			if p.inName {
				c.ExpectAddrs("malformed", in, one(p.resPre+want+p.resPost, p.addr))
			} else {
				c.ExpectAddrs("malformed", in, one(p.nameWith, p.resPre+want+p.resPost))
			}
			c.Nontrivial(in)
		}},
	)
}
