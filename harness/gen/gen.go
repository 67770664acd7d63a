// Package gen builds inputs together with what they must mean. Every value is
// known by construction: the text is rendered from the intended result, so the
// expectation owes nothing to any parser.
package gen

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"vharness/ref"
)

// G is a generator with its knobs.
type G struct {
	*rand.Rand
	NoComments bool // whitespace only, no comments
	NoCFWS     bool // neither, except where a separator is needed
	Plain      bool // ASCII alphanumeric words only
	Charsets   bool // also use charsets only a CharsetReader knows ("x-rot", "x-up")
	NoEncoded  bool // no encoded words
	Template   bool // leave markers where comments and whitespace may stand (see Fill)
	// Dict and Sizes are words and lengths worth trying, mined from the source
	// under test. They steer the workload only; no expectation depends on them.
	Dict  []string
	Sizes []int
	Feat  map[string]int
	made  map[string][]piece
}

// Markers of a template.
const (
	MarkOpt  = '\U0010f0a0' // optional comments and whitespace
	MarkCFWS = '\U0010f0a1' // some comments and whitespace
	MarkFold = '\U0010f0a2' // a fold may stand here: whitespace follows
	MarkFWS  = '\U0010f0a3' // some whitespace, no comments
	MarkGap  = '\U0010f0a4' // optional, between two encoded words
)

// Fill replaces the markers of a template. Level 0 is as little as possible, 1
// whitespace only, 2 now and then a comment, 3 comments everywhere.
func (g *G) Fill(tmpl string, level int) string {
	saved := *g
	defer func() { f := g.Feat; *g = saved; g.Feat = f }()
	g.Template, g.NoCFWS, g.NoComments = false, false, level == 1
	var b strings.Builder
	cfws := func() string {
		switch level {
		case 0:
			return " "
		case 3:
			var b strings.Builder
			for n := 1 + g.Intn(3); n > 0; n-- {
				if g.P(1, 2) {
					b.WriteString(g.FWS())
				}
				b.WriteString(g.Comment(3))
			}
			if g.P(1, 2) {
				b.WriteString(g.FWS())
			}
			return b.String()
		}
		return g.CFWS()
	}
	for _, r := range tmpl {
		switch r {
		case MarkOpt, MarkGap:
			if level > 0 && g.P(level+1, 6) {
				b.WriteString(cfws())
			}
		case MarkCFWS:
			b.WriteString(cfws())
		case MarkFold:
			if level > 0 && g.P(1, 2) {
				g.F("fold-inside")
				b.WriteString("\r\n")
			}
		case MarkFWS:
			if level == 0 {
				b.WriteByte(' ')
			} else {
				b.WriteString(g.FWS())
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// inner is whitespace inside quotes or a domain literal, which counts.
func (g *G) inner() (src, val string) {
	if g.Template {
		n := 1 + g.Intn(3)
		at := g.Intn(n)
		for i := 0; i < n; i++ {
			if i == at {
				src += string(MarkFold)
			}
			c := string(Pick(g, byte(' '), ' ', '\t'))
			src += c
			val += c
		}
		return src, val
	}
	src = g.FWS()
	return src, strings.ReplaceAll(src, "\r\n", "")
}

// New seeds a generator.
func New(r *rand.Rand) *G { return &G{Rand: r, Feat: map[string]int{}} }

// piece is a piece made before: equal pieces next to each other are worth trying.
type piece struct {
	src, val string
	addrs    []ref.Addr
}

// kind tells pieces apart that were made under other knobs.
func (g *G) kind(kind string) string {
	return fmt.Sprint(kind, g.NoComments, g.NoCFWS, g.Plain, g.Charsets, g.NoEncoded, g.Template)
}

// again is now and then a piece of the kind made before, mostly the last one.
func (g *G) again(kind string, num, den int) (piece, bool) {
	m := g.made[g.kind(kind)]
	if len(m) == 0 || !g.P(num, den) {
		return piece{}, false
	}
	g.F("again-" + kind)
	if g.P(2, 3) {
		return m[len(m)-1], true
	}
	return m[g.Intn(len(m))], true
}

// keep remembers a piece.
func (g *G) keep(kind, src, val string, addrs []ref.Addr) {
	if len(src) > 80 {
		return
	}
	if g.made == nil {
		g.made = map[string][]piece{}
	}
	k := g.kind(kind)
	if len(g.made[k]) > 20 {
		g.made[k] = g.made[k][10:]
	}
	g.made[k] = append(g.made[k], piece{src, val, addrs})
}

// F counts a feature of the generated input.
func (g *G) F(name string) { g.Feat[name]++ }

func (g *G) P(num, den int) bool { return g.Intn(den) < num }

func Pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }

// Size picks mostly small sizes, now and then a big one.
func (g *G) Size(typical, big int) int {
	if len(g.Sizes) > 0 && g.P(1, 60) {
		if n := g.Sizes[g.Intn(len(g.Sizes))] + g.Intn(3) - 1; n > 0 && n <= 4*big {
			return n
		}
	}
	switch {
	case g.P(1, 40):
		return 1 + g.Intn(big)
	case g.P(1, 6):
		return 1 + g.Intn(typical*2)
	}
	return 1 + g.Intn(typical)
}

const (
	alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	// Atext is every ASCII character an atom may contain.
	Atext = alnum + "!#$%&'*+-/=?^_`{|}~"
	// Qtext is every ASCII printing character a quoted string may contain unescaped.
	Qtext = Atext + "()<>[]:;@,."
	// Dtext is every ASCII character a domain literal may contain.
	Dtext = Atext + "()<>:;@,.\""
	// Ctext is every ASCII character a comment may contain unescaped.
	Ctext = Atext + "<>[]:;@,.\""
	// Vchar is every ASCII printing character.
	Vchar = Qtext + "\\\""
	// CTL is every control character quoted text and comments may contain.
	CTL = "\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f"
)

// Rune picks a non-ASCII character.
func (g *G) Rune() rune {
	g.F("nonascii")
	for {
		var r rune
		switch g.Intn(9) {
		case 0, 1:
			r = 0x80 + rune(g.Intn(0x780))
		case 2, 3:
			r = 0x800 + rune(g.Intn(0xf800))
		case 4:
			g.F("astral")
			r = 0x1f300 + rune(g.Intn(0x400))
		case 5:
			g.F("astral")
			r = 0x10000 + rune(g.Intn(0x100000))
		case 6:
			r = Pick(g, rune(0x80), 0x85, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff)
		case 7:
			r = Pick(g, 'é', 'ß', 'ř', 'İ', 'ı', 'ſ', 'K', 'ö', '日', '本', '語', 'ا', 'ש', '̈')
		default:
			r = 0x4e00 + rune(g.Intn(0x5000))
		}
		if (r < 0xd800 || r > 0xdfff) && (r < MarkOpt || r > MarkGap) {
			return r
		}
	}
}

// FWS is one run of folding whitespace.
func (g *G) FWS() string {
	if g.Template {
		return string(MarkFWS)
	}
	w := func(min int) string {
		var b strings.Builder
		for n := min + g.Intn(2); n > 0; n-- {
			b.WriteByte(Pick(g, byte(' '), ' ', ' ', '\t'))
		}
		return b.String()
	}
	if g.P(1, 4) {
		g.F("fold")
		return w(0) + "\r\n" + w(1)
	}
	return w(1)
}

// Comment is a comment, possibly nested.
func (g *G) Comment(depth int) string {
	g.F("comment")
	var b strings.Builder
	b.WriteByte('(')
	ws := false // two runs of whitespace must not touch
	for n := g.Intn(6); n > 0; n-- {
		if !ws && g.P(1, 4) {
			b.WriteString(g.FWS())
			ws = true
		}
		at := b.Len()
		switch g.Intn(8) {
		case 0:
			b.WriteByte('\\')
			if g.P(1, 4) {
				g.F("obsqp")
				b.WriteByte(Pick(g, byte(0), '\n', '\r', 1, 0x7f))
			} else {
				b.WriteByte(Pick(g, byte('('), ')', '\\', '"', 'x', ' ', '\t', '<', '@', ','))
			}
		case 1:
			if depth > 0 {
				g.F("nested")
				b.WriteString(g.Comment(depth - 1))
			}
		case 2:
			b.WriteRune(g.Rune())
		case 3:
			b.WriteByte(CTL[g.Intn(len(CTL))])
		case 4:
			b.WriteString(Pick(g, "=?utf-8?Q?no?=", "=?x-up?Q?no?=", "a@b", "<a@b>", "\"", "g:;", "x,y"))
		default:
			b.WriteByte(Ctext[g.Intn(len(Ctext))])
		}
		if b.Len() > at {
			ws = false
		}
	}
	if !ws && g.P(1, 4) {
		b.WriteString(g.FWS())
	}
	b.WriteByte(')')
	return b.String()
}

// CFWS is a mandatory run of comments and whitespace.
func (g *G) CFWS() string {
	if g.Template {
		return string(MarkCFWS)
	}
	if g.NoComments || g.NoCFWS || !g.P(1, 3) {
		if g.NoCFWS {
			return " "
		}
		return g.FWS()
	}
	var b strings.Builder
	for n := 1 + g.Intn(2); n > 0; n-- {
		if g.P(1, 2) {
			b.WriteString(g.FWS())
		}
		b.WriteString(g.Comment(2))
	}
	if g.P(1, 2) {
		b.WriteString(g.FWS())
	}
	return b.String()
}

// Opt is optional comments and whitespace.
func (g *G) Opt() string {
	if g.Template {
		return string(MarkOpt)
	}
	if g.NoCFWS || g.P(3, 4) {
		return ""
	}
	return g.CFWS()
}

// Atom is an atom that contains nothing like an encoded word.
func (g *G) Atom(big int) string {
	if p, ok := g.again("atom", 1, 10); ok && len(p.src) <= big {
		if g.P(1, 5) {
			return flip(p.src)
		}
		return p.src
	}
	s := g.atom(big)
	g.keep("atom", s, s, nil)
	return s
}

// flip changes the case of the ASCII letters.
func flip(s string) string {
	return strings.Map(func(r rune) rune {
		if 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' {
			return r ^ 0x20
		}
		return r
	}, s)
}

func (g *G) atom(big int) string {
	for {
		var b strings.Builder
		if !g.Plain && len(g.Dict) > 0 && g.P(1, 20) {
			if d := g.Dict[g.Intn(len(g.Dict))]; isAtom(d) {
				g.F("mined-word")
				if g.P(1, 2) {
					return d
				}
				b.WriteString(d)
			}
		}
		for n := g.Size(5, big); n > 0; n-- {
			switch {
			case g.Plain || g.P(3, 4):
				b.WriteByte(alnum[g.Intn(len(alnum))])
			case g.P(1, 3):
				b.WriteRune(g.Rune())
			default:
				b.WriteByte(Atext[g.Intn(len(Atext))])
			}
		}
		if s := b.String(); !strings.Contains(s, "=?") {
			return s
		}
	}
}

// IsAtom reports whether the text can stand as an atom that is no encoded word.
func IsAtom(s string) bool { return isAtom(s) }

// Quote escapes what a quoted string cannot hold as it is.
func Quote(s string) string { return quote(s) }

func isAtom(s string) bool {
	for _, r := range s {
		if r < 0x80 && strings.IndexByte(Atext, byte(r)) < 0 {
			return false
		}
	}
	return s != "" && !strings.Contains(s, "=?") && utf8.ValidString(s)
}

// quote renders any text inside a quoted string.
func quote(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '"' || r == '\\' || r == 0 || r == '\n' || r == '\r' {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

// Quoted renders a quoted string and its value.
func (g *G) Quoted(big int) (src, val string) {
	g.F("quoted")
	var s, v strings.Builder
	n := g.Intn(7)
	if g.P(1, 30) {
		n = g.Intn(big)
	}
	s.WriteByte('"')
	sp := func() {
		a, b := g.inner()
		s.WriteString(a)
		v.WriteString(b)
	}
	if !g.Plain && len(g.Dict) > 0 && g.P(1, 15) {
		if d := g.Dict[g.Intn(len(g.Dict))]; !strings.ContainsAny(d, " \t") && utf8.ValidString(d) {
			g.F("mined-word")
			s.WriteString(quote(d))
			v.WriteString(d)
		}
	}
	for ; n > 0; n-- {
		if g.P(1, 5) {
			sp()
		}
		switch {
		case g.Plain || g.P(1, 2):
			c := alnum[g.Intn(len(alnum))]
			s.WriteByte(c)
			v.WriteByte(c)
		case g.P(1, 3):
			g.F("quotedpair")
			c := (Vchar + " \t")[g.Intn(len(Vchar)+2)]
			if g.P(1, 3) {
				c = Pick(g, byte('"'), '\\')
			} else if g.P(1, 6) {
				g.F("obsqp")
				c = ("\x00\n\r" + CTL)[g.Intn(len(CTL)+3)]
			}
			s.WriteByte('\\')
			s.WriteByte(c)
			v.WriteByte(c)
		case g.P(1, 4):
			r := g.Rune()
			if g.P(1, 5) {
				s.WriteByte('\\')
			}
			s.WriteRune(r)
			v.WriteRune(r)
		case g.P(1, 5):
			g.F("ctl")
			c := CTL[g.Intn(len(CTL))]
			s.WriteByte(c)
			v.WriteByte(c)
		default:
			c := Qtext[g.Intn(len(Qtext))]
			s.WriteByte(c)
			v.WriteByte(c)
		}
	}
	if g.P(1, 8) {
		g.F("quoted-trailing-space")
		sp()
	}
	s.WriteByte('"')
	return s.String(), v.String()
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// Text makes plain text for encoding.
func (g *G) Text(ascii, latin bool, big int) string {
	var b strings.Builder
	if len(g.Dict) > 0 && g.P(1, 12) {
		if d := g.Dict[g.Intn(len(g.Dict))]; printable(d) {
			g.F("mined-word")
			b.WriteString(d)
		}
	}
	for n := g.Size(6, big); n > 0; n-- {
		switch {
		case ascii || g.P(1, 2):
			b.WriteByte(byte(0x20 + g.Intn(0x5f)))
		case latin:
			b.WriteRune(0xa0 + rune(g.Intn(0x60)))
		default:
			b.WriteRune(g.Rune())
		}
	}
	return b.String()
}

func caseMix(g *G, s string) string {
	switch g.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if g.P(1, 2) && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// EncodeQ renders bytes in the Q encoding; wild escapes some bytes needlessly.
func (g *G) EncodeQ(raw string, wild bool) string {
	var b strings.Builder
	hex := Pick(g, "%02X", "%02X", "%02x")
	for i := 0; i < len(raw); i++ {
		c := raw[i]
		switch {
		case c == ' ' && g.P(2, 3):
			b.WriteByte('_')
		case (strings.IndexByte(alnum, c) >= 0 || (wild && strings.IndexByte("!#$%&'*+-/^`{|}~", c) >= 0 && g.P(1, 2))) && !g.P(1, 12):
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "="+hex, c)
		}
	}
	return b.String()
}

// EncodedWord renders text as one encoded word.
func (g *G) EncodedWord(big int) (src, val string) {
	g.F("encodedword")
	cs := Pick(g, "utf-8", "utf-8", "utf-8", "iso-8859-1", "us-ascii")
	if g.Charsets && g.P(1, 2) {
		cs = Pick(g, "x-rot", "x-up")
	}
	var raw string
	switch cs {
	case "utf-8":
		val = g.Text(false, false, big)
		raw = val
	case "iso-8859-1":
		val = g.Text(false, true, big)
		for _, r := range val {
			raw += string([]byte{byte(r)})
		}
	case "us-ascii":
		val = g.Text(true, false, big)
		raw = val
	default:
		raw = g.Text(true, false, big)
		val = Convert(cs, raw)
	}
	return g.Encode(cs, raw), val
}

// Encode renders raw bytes as an encoded word in the named charset.
func (g *G) Encode(cs, raw string) string {
	if g.P(1, 2) {
		g.F("ew-B")
		return "=?" + caseMix(g, cs) + Pick(g, "?B?", "?b?") + base64.StdEncoding.EncodeToString([]byte(raw)) + "?="
	}
	g.F("ew-Q")
	return "=?" + caseMix(g, cs) + Pick(g, "?Q?", "?q?") + g.EncodeQ(raw, true) + "?="
}

// Convert is the meaning of the two made-up charsets.
func Convert(cs, raw string) string {
	switch cs {
	case "x-up":
		return strings.ToUpper(raw)
	case "x-rot":
		return strings.Map(func(r rune) rune {
			switch {
			case r >= 'a' && r <= 'z':
				return 'a' + (r-'a'+13)%26
			case r >= 'A' && r <= 'Z':
				return 'A' + (r-'A'+13)%26
			case r >= '0' && r <= '9':
				return 'Ø'
			}
			return r
		}, raw)
	}
	panic(cs)
}

// DisplayName renders a display name and its value.
func (g *G) DisplayName(big int) (src, val string) {
	const (
		start = iota
		atom
		quoted
		enc
		glue
	)
	var s strings.Builder
	prev := start
	n := g.Size(3, big)
	s.WriteString(g.Opt())
	for i := 0; i < n; i++ {
		kind := Pick(g, atom, atom, atom, quoted, quoted, enc, glue)
		if kind == glue && (prev == start) || kind == enc && g.NoEncoded {
			kind = atom
		}
		if kind == glue {
			g.F("unspaced")
			c := Pick(g, ".", ".", "@")
			s.WriteString(g.Opt() + c + g.Opt())
			val += c
			prev = glue
			continue
		}
		var t, v string
		switch kind {
		case atom:
			t = g.Atom(30)
			v = t
		case quoted:
			if p, ok := g.again("quoted", 1, 10); ok {
				t, v = p.src, p.val
				break
			}
			t, v = g.Quoted(60)
			g.keep("quoted", t, v, nil)
		case enc:
			if p, ok := g.again("encoded", 1, 10); ok {
				t, v = p.src, p.val
				break
			}
			t, v = g.EncodedWord(40)
			g.keep("encoded", t, v, nil)
		}
		// what must or may stand between two words
		switch {
		case prev == start || prev == glue:
		case prev == enc && kind == enc:
			g.F("adjacent-ew")
			if g.Template {
				s.WriteRune(MarkGap)
			} else if g.P(2, 3) {
				s.WriteString(g.CFWS())
			}
		case prev == atom && kind == atom, prev == atom && kind == enc, prev == enc && kind == atom:
			s.WriteString(g.CFWS())
		default: // a quoted string delimits itself
			if g.P(3, 4) {
				s.WriteString(g.CFWS())
			}
		}
		if prev != start && prev != glue && !(prev == enc && kind == enc) && val != "" {
			val += " "
		}
		s.WriteString(t)
		val += v
		prev = kind
	}
	s.WriteString(g.Opt())
	return s.String(), val
}

// DotAtom is a dot-atom.
func (g *G) DotAtom(big int) string {
	s := g.Atom(20)
	for n := g.Size(2, big) - 1; n > 0; n-- {
		s += "." + g.Atom(8)
	}
	return s
}

// Local renders a local part.
func (g *G) Local() (src, val string) {
	switch g.Intn(8) {
	case 0, 1:
		g.F("local-quoted")
		s, v := g.Quoted(40)
		return g.Opt() + s + g.Opt(), v
	case 2:
		g.F("local-obs")
		var s, v string
		for i, n := 0, 2+g.Intn(3); i < n; i++ {
			if i > 0 {
				s += "."
				v += "."
			}
			t, u := g.Atom(8), ""
			if g.P(1, 2) {
				t, u = g.Quoted(10)
			} else {
				u = t
			}
			s += g.Opt() + t + g.Opt()
			v += u
		}
		return s, v
	case 3:
		if g.P(1, 3) {
			g.F("local-trailing-dot")
			d := g.DotAtom(6) + "."
			return g.Opt() + d + g.Opt(), d
		}
	}
	g.F("local-dotatom")
	d := g.DotAtom(12)
	return g.Opt() + d + g.Opt(), d
}

// Domain renders a domain.
func (g *G) Domain() (src, val string) {
	switch g.Intn(6) {
	case 0:
		g.F("domain-literal")
		s, v := "[", "["
		for n := g.Intn(8); n > 0; n-- {
			if !g.Plain && g.P(1, 8) {
				a, b := g.inner()
				s += a
				v += b
			}
			c := string("0123456789.:"[g.Intn(12)])
			if !g.Plain && g.P(1, 6) {
				c = string(Dtext[g.Intn(len(Dtext))])
			} else if !g.Plain && g.P(1, 12) {
				c = string(g.Rune())
			}
			s += c
			v += c
		}
		return g.Opt() + s + "]" + g.Opt(), v + "]"
	case 1:
		g.F("domain-trailing-dot")
		d := g.DotAtom(6) + "."
		return g.Opt() + d + g.Opt(), d
	}
	g.F("domain-dotatom")
	d := g.DotAtom(12)
	return g.Opt() + d + g.Opt(), d
}

// Spec renders an addr-spec.
func (g *G) Spec() (src, val string) {
	ls, lv := g.Local()
	ds, dv := g.Domain()
	src, val = ls+"@"+ds, lv+"@"+dv
	if g.P(1, 10) {
		g.F("port")
		p := Pick(g, "0", "25", "587", "65535", "0025", "123456789012345678901234567890")
		src += ":" + p
		val += ":" + p
	}
	return src, val
}

// Angle renders an angle-addr.
func (g *G) Angle() (src, val string) {
	if p, ok := g.again("angle", 1, 12); ok {
		return p.src, p.val
	}
	src, val = g.angleAddr()
	g.keep("angle", src, val, nil)
	return src, val
}

func (g *G) angleAddr() (src, val string) {
	if g.P(1, 15) {
		g.F("empty-angle")
		return g.Opt() + "<" + g.Opt0() + ">" + g.Opt(), ""
	}
	s, v := g.Spec()
	if g.P(1, 10) {
		g.F("route")
		r := ""
		for n := g.Intn(3); n > 0; n-- {
			r += Pick(g, ",", " ", ", ", "(c)")
		}
		d, _ := g.routeDomain()
		r += "@" + d
		for n := g.Intn(3); n > 0; n-- {
			r += ","
			if g.P(1, 3) {
				r += g.FWS()
			}
			if g.P(3, 4) {
				d, _ := g.routeDomain()
				r += "@" + d
			}
		}
		return g.Opt() + "<" + r + ":" + s + ">" + g.Opt(), v
	}
	return g.Opt() + "<" + s + ">" + g.Opt(), v
}

// Opt0 is nothing: "<" and ">" of an empty address must touch.
func (g *G) Opt0() string { return "" }

func (g *G) routeDomain() (string, string) {
	d := g.DotAtom(3)
	return d, d
}

// Mailbox renders a mailbox.
func (g *G) Mailbox() (src string, a ref.Addr) {
	if p, ok := g.again("mailbox", 1, 10); ok {
		return p.src, p.addrs[0]
	}
	src, a = g.mailbox()
	g.keep("mailbox", src, "", []ref.Addr{a})
	return src, a
}

func (g *G) mailbox() (src string, a ref.Addr) {
	switch {
	case g.P(1, 3):
		g.F("bare-spec")
		s, v := g.Spec()
		return s, ref.Addr{Address: v}
	case g.P(1, 5):
		g.F("angle-only")
		s, v := g.Angle()
		return s, ref.Addr{Address: v}
	}
	g.F("name-addr")
	n, nv := g.DisplayName(10)
	s, v := g.Angle()
	return n + s, ref.Addr{Name: nv, Address: v}
}

// Group renders a group of n mailboxes. closed says whether it must end in a
// semicolon.
func (g *G) Group(n int, closed bool) (src string, as []ref.Addr) {
	g.F("group")
	name, _ := g.DisplayName(4)
	src = name + ":"
	if n == 0 {
		g.F("empty-group")
		if g.P(1, 4) {
			for k := 1 + g.Intn(3); k > 0; k-- {
				src += ","
			}
		}
		src += g.Opt()
	} else {
		obs := g.P(1, 5)
		for i := 0; i < n; i++ {
			if i > 0 {
				src += ","
				if obs && g.P(1, 3) {
					src += ","
				}
			} else if obs && g.P(1, 2) {
				src += ","
			}
			s, a := g.Mailbox()
			src += s
			as = append(as, a)
		}
	}
	if closed || g.P(2, 3) {
		src += ";" + g.Opt()
	} else {
		g.F("open-group")
	}
	return src, as
}

// List renders an address list of n elements (mailboxes or groups).
func (g *G) List(n int) (src string, as []ref.Addr) {
	style := g.Intn(5) // 0: obsolete, with empty elements; else: , or ;
	if style == 0 {
		g.F("list-obs")
		for g.P(1, 2) {
			src += g.Opt() + ","
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			switch {
			case style == 0:
				src += ","
				for g.P(1, 3) {
					g.F("empty-element")
					src += g.Opt() + ","
				}
			case style == 1 && g.P(1, 2):
				g.F("semicolon-list")
				src += ";"
			default:
				src += ","
			}
		}
		if g.P(1, 6) {
			// only the last group may stay open: what follows would belong to it
			closed := fmt.Sprint("group", i < n-1)
			p, ok := g.again(closed, 1, 5)
			s, a := p.src, p.addrs
			if !ok {
				s, a = g.Group(g.Intn(4), i < n-1)
				g.keep(closed, s, "", a)
			}
			src += s
			as = append(as, a...)
			continue
		}
		s, a := g.Mailbox()
		src += s
		as = append(as, a)
	}
	if style == 0 {
		for g.P(1, 2) {
			src += "," + g.Opt()
		}
	}
	return src, as
}

// ---- hostile text: no expectation attached, the reference model decides ----

var soup = []string{
	"a", "b", "1", "x ", " ", " ", "\t", "\r\n ", "(c)", "(", ")", "\"", "\\", "\"q\"", ",", ",", ";", ":", "<", ">", "@", "@",
	"a@b", "<a@b>", ".", "[", "]", "[1.2]", "=?utf-8?Q?e=20?=", "=?x?q?z?=", "=?utf-8?b?YQ==?=", "=?", "?=", "é", "😀",
	"\x01", "\x00", "\r", "\n", "\\\"", "\\a", "g:", "<@r:a@b>", "\"q r \"", "=", "?", "!", "~", "\x7f", "<>", "\xff", "g:;", "a <a@b>", "a.b",
}

// Soup strings grammar tokens together at random.
func (g *G) Soup(max int) string {
	var b strings.Builder
	for n := 1 + g.Intn(max); n > 0; n-- {
		b.WriteString(soup[g.Intn(len(soup))])
	}
	return b.String()
}

// Mutate damages a string in one to three places.
func (g *G) Mutate(s string) string {
	for n := 1 + g.Intn(3); n > 0; n-- {
		rs := []rune(s)
		at := 0
		if len(rs) > 0 {
			at = g.Intn(len(rs))
		}
		ins := Pick(g, soup...)
		switch g.Intn(6) {
		case 0: // delete
			if len(rs) > 0 {
				s = string(rs[:at]) + string(rs[at+1:])
			}
		case 1: // insert
			s = string(rs[:at]) + ins + string(rs[at:])
		case 2: // replace
			if len(rs) > 0 {
				s = string(rs[:at]) + ins + string(rs[at+1:])
			}
		case 3: // duplicate a stretch
			if len(rs) > 0 {
				to := at + 1 + g.Intn(3)
				if to > len(rs) {
					to = len(rs)
				}
				s = string(rs[:to]) + string(rs[at:])
			}
		case 4: // swap
			if len(rs) > 1 {
				b := g.Intn(len(rs))
				rs[at], rs[b] = rs[b], rs[at]
				s = string(rs)
			}
		case 5: // truncate
			if g.P(1, 3) {
				s = string(rs[:at])
			}
		}
	}
	return s
}

// Valid reports whether a string is valid UTF-8.
func Valid(s string) bool { return utf8.ValidString(s) }
