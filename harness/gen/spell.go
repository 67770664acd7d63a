package gen

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"vharness/ref"
)

// This file spells the same meaning in different ways.

// qtext spells a text inside a quoted string: escapes where they are needed and
// now and then where they are not, folds before whitespace.
func (g *G) qtext(s string) string {
	var b strings.Builder
	ws := false // inside a run of whitespace that has been started
	needless := g.Intn(3) * 4
	for i, r := range s {
		esc := r == '"' || r == '\\'
		if !esc && r >= 0x20 && r < 0x7f && needless > 0 && g.P(1, needless) {
			g.F("spell.needless-escape")
			esc = true
		}
		space := r == ' ' || r == '\t'
		if space && !esc && !ws && !g.NoCFWS && g.P(1, 8) {
			if !(i+1 < len(s) && (s[i+1] == ' ' || s[i+1] == '\t')) { // simple runs only
				g.F("spell.fold")
				b.WriteString("\r\n")
			}
		}
		ws = space && !esc
		if esc {
			b.WriteByte('\\')
		}
		if r == '\ufffd' && g.P(1, 2) {
			g.F("spell.ill-formed")
			b.WriteByte(Pick(g, byte(0xff), 0xc0, 0x80, 0xfe))
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// encoded spells a text as adjacent encoded words.
func (g *G) encoded(s string) string {
	rs := []rune(s)
	var out []string
	for len(rs) > 0 {
		n := len(rs)
		if g.P(1, 3) {
			n = 1 + g.Intn(n)
		}
		part := rs[:n]
		rs = rs[n:]
		cs, raw := "utf-8", string(part)
		ascii, latin := true, true
		for _, r := range part {
			ascii, latin = ascii && r < 0x80, latin && r < 0x100
		}
		switch {
		case ascii && g.P(1, 3):
			cs = "us-ascii"
		case latin && g.P(1, 2):
			cs, raw = "iso-8859-1", ""
			for _, r := range part {
				raw += string([]byte{byte(r)})
			}
		}
		g.F("spell." + cs)
		w := "=?" + caseMix(g, cs)
		if g.P(1, 2) {
			w += Pick(g, "?B?", "?b?") + base64.StdEncoding.EncodeToString([]byte(raw))
		} else {
			w += Pick(g, "?Q?", "?q?") + g.EncodeQ(raw, true)
		}
		out = append(out, w+"?=")
	}
	if len(out) > 1 {
		g.F("spell.adjacent")
	}
	return strings.Join(out, g.sep())
}

// sep is whitespace that must be there.
func (g *G) sep() string {
	if g.NoCFWS {
		return " "
	}
	return g.CFWS()
}

// Spelled is one way to write the text of a display name. It also tells
// whether the first and the last word are encoded words, between which a space
// would be lost.
func (g *G) Spelled(s string) (src string, first, last bool) {
	for try := 0; try < 4; try++ {
		switch g.Intn(4) {
		case 0:
			if isAtom(s) {
				g.F("spell.atom")
				return strings.ReplaceAll(s, "\ufffd", Pick(g, "\ufffd", "\xff", "\xc3")), false, false
			}
		case 1:
			if strings.ContainsRune(s, '\ufffd') {
				continue
			}
			g.F("spell.encoded")
			return g.encoded(s), true, true
		default:
			var at []int
			for i := 1; i+1 < len(s); i++ {
				if s[i] == ' ' {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				continue
			}
			i := at[g.Intn(len(at))]
			l, f1, l1 := g.Spelled(s[:i])
			r, f2, l2 := g.Spelled(s[i+1:])
			if !(l1 && f2) {
				g.F("spell.words")
				return l + g.sep() + r, f1, l2
			}
		}
	}
	g.F("spell.quoted")
	return "\"" + g.qtext(s) + "\"", false, false
}

// SpelledLocal is one way to write a local part; parts between dots are atoms.
func (g *G) SpelledLocal(s string) string {
	switch g.Intn(4) {
	case 0:
		g.F("spell.local-quoted")
		return "\"" + g.qtext(s) + "\""
	case 1:
		g.F("spell.local-words")
		ps := strings.Split(s, ".")
		for i, p := range ps {
			if g.P(1, 2) {
				ps[i] = "\"" + g.qtext(p) + "\""
			}
			if i > 0 && !g.NoCFWS && g.P(1, 3) {
				ps[i] = g.CFWS() + ps[i]
			}
		}
		return strings.Join(ps, ".")
	}
	return s
}

// Meaning is what a list says.
type Meaning struct{ Name, Local, Domain string }

// Meaning makes up a mailbox.
func (g *G) Meaning() (m Meaning) {
	word := func() string {
		if g.P(1, 2) {
			return g.Atom(12)
		}
		var b strings.Builder
		for n := 1 + g.Intn(6); n > 0; n-- {
			switch g.Intn(4) {
			case 0:
				b.WriteRune(g.Rune())
			case 1:
				b.WriteByte(Pick(g, byte('"'), '\\', '(', ')', ',', '.', ':', ';', '<', '>', '@', '[', ']', '\'', '=', '?', '_'))
			default:
				b.WriteByte(alnum[g.Intn(len(alnum))])
			}
		}
		return strings.ReplaceAll(b.String(), "=?", "?=")
	}
	if g.P(4, 5) {
		m.Name = word()
		for n := g.Intn(3); n > 0; n-- {
			m.Name += Pick(g, " ", " ", "  ") + word()
		}
		if g.P(1, 8) {
			m.Name += "\ufffd"
		}
	}
	m.Local, m.Domain = g.DotAtom(4), g.DotAtom(4)
	return m
}

// SpelledList is one way to write a list of mailboxes.
func (g *G) SpelledList(ms []Meaning) string {
	var els []string
	var group []string
	open := false
	flush := func() {
		if open {
			g.F("spell.group")
			els = append(els, Pick(g, "g", "\"a,b\"", "Undisclosed recipients")+":"+strings.Join(group, ",")+";")
			open, group = false, nil
		}
	}
	for _, m := range ms {
		spec := g.SpelledLocal(m.Local) + "@" + m.Domain
		src := ""
		switch {
		case m.Name != "":
			s, _, _ := g.Spelled(m.Name)
			src = s + Pick(g, "", " ", g.sep()) + g.angle(spec)
		case g.P(1, 3):
			src = g.angle(spec)
		case g.P(1, 3):
			g.F("spell.empty-name")
			src = "\"\"" + g.angle(spec)
		default:
			src = g.Opt() + spec + g.Opt()
		}
		if !open && g.P(1, 5) {
			open = true
		}
		if open {
			group = append(group, src)
			if g.P(1, 2) {
				flush()
			}
			continue
		}
		els = append(els, src)
	}
	flush()
	var b strings.Builder
	for i, e := range els {
		if i > 0 {
			b.WriteString(Pick(g, ",", ",", ", ", ",,", ", ,", ",\r\n "))
		}
		b.WriteString(e)
	}
	return b.String()
}

func (g *G) angle(spec string) string {
	if g.P(1, 6) {
		g.F("spell.route")
		return "<" + Pick(g, "@r:", "@r,@s.t:", "@r,,@s:") + spec + ">"
	}
	return "<" + spec + ">"
}

// SpelledDate is one way to write a date-time that lies in 1930..now.
func (g *G) SpelledDate(t time.Time, now int) string {
	var b strings.Builder
	if g.P(1, 2) {
		g.F("spell.dayname")
		day := t.Weekday().String()[:3]
		if g.P(1, 3) { // any will do
			g.F("spell.wrong-day")
			day = Pick(g, dayNames...)
		}
		b.WriteString(g.Opt() + g.caseName(day) + g.Opt() + ",")
	}
	b.WriteString(g.Opt())
	fmt.Fprintf(&b, Pick(g, "%d", "%02d"), t.Day())
	b.WriteString(Pick(g, "", " ", g.sep()) + g.caseName(t.Month().String()[:3]))
	if y := t.Year(); y > now-98 && y < now-1 && g.P(1, 2) {
		g.F("spell.two-digit-year")
		fmt.Fprintf(&b, "%s%02d%s", Pick(g, "", " ", g.sep()), y%100, g.sep())
	} else {
		fmt.Fprintf(&b, " %04d ", y)
	}
	fmt.Fprintf(&b, Pick(g, "%d", "%02d"), t.Hour())
	fmt.Fprintf(&b, "%s:%s%02d", g.Opt(), g.Opt(), t.Minute())
	if t.Second() != 0 || g.P(1, 2) {
		fmt.Fprintf(&b, "%s:%s%02d", g.Opt(), g.Opt(), t.Second())
	} else {
		g.F("spell.no-seconds")
	}
	_, off := t.Zone()
	names := []string{}
	for z, h := range ref.NamedZones {
		if h*3600 == off {
			names = append(names, z)
		}
	}
	// (map order must not decide)
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			if names[j] < names[i] {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	switch {
	case len(names) > 0 && g.P(1, 2):
		g.F("spell.named-zone")
		b.WriteString(Pick(g, " ", "", g.sep()) + g.caseName(strings.ToUpper(names[g.Intn(len(names))])))
	case off == 0 && g.P(1, 3):
		g.F("spell.no-zone")
	default:
		sign, abs := "+", off
		if off < 0 {
			sign, abs = "-", -off
		}
		if off == 0 {
			sign = Pick(g, "+", "-")
		}
		if sign == "+" && g.P(1, 4) {
			g.F("spell.unsigned")
			sign = ""
		}
		fmt.Fprintf(&b, " %s%02d%02d", sign, abs/3600, abs/60%60)
	}
	b.WriteString(g.Opt())
	return b.String()
}
