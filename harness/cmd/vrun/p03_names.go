package main

import (
	"strings"
)

// equalTexts are texts of words that are repeated.
var equalTexts = []string{"a", "B", "al", "Bob", "John", "Smith", "Alexander", "christopher", "Dr", "van", "O'Neil", "1", "2020", "é", "Jörg", "李", "😀", "-", "--", "&", "and", "via", "null", "undefined", "abcdefghijklmnopqrstuvwxyz"}

func flipCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func init() {
	words := sweepSizes(40, 130)
	lengths := sweepSizes(40, 1001)
	counts := sweepSizes(18, 66)
	piece := func(k, i int) (src, val string, kind byte) {
		t := string("abcdefghij"[i%10]) + "x"
		switch k {
		case 0:
			return t, t, 'a'
		case 1:
			return "\"" + t + " \\\"z\"", t + " \"z", 'q'
		case 2:
			return "=?utf-8?q?" + t + "=C3=A9?=", t + "é", 'e'
		case 3:
			return ".", ".", 'g'
		case 4:
			return "@", "@", 'g'
		case 5:
			return "\"\"", "", 'q'
		}
		return "=?UTF-8?B?w6k=?=", "é", 'e'
	}
	// name joins pieces the way the words of a name combine.
	name := func(kinds []int, spaced bool) (src, val string) {
		var prev byte
		for i, k := range kinds {
			s, v, kind := piece(k, i)
			if i > 0 {
				need := strings.ContainsRune("ae", rune(prev)) && strings.ContainsRune("ae", rune(kind)) && !(prev == 'e' && kind == 'e')
				if spaced || need {
					src += " "
				}
				if kind != 'g' && prev != 'g' && !(prev == 'e' && kind == 'e') && val != "" {
					val += " "
				}
			}
			src, val, prev = src+s, val+v, kind
		}
		return src, val
	}
	quotedEnds := []string{"\"%s\"", "\" %s\"", "\"%s \"", "\"\t%s\t \"", "\"\r\n %s\"", "\"%s\r\n \"", "\"%s \r\n\t\"", "\"\\\"%s\\\"\"", "\"\\\\%s\\\\\"", "\"%s\\ \"", "\"\\%s\""}
	sections(&Prop{
		ID: "P03",
		Rule: "An input is a display name rendered from the text it must decode to (atoms, quoted strings with quoted pairs, encoded words, unspaced '.' and '@', with or " +
			"without comments and whitespace), in front of <a@b>, inside a list or inside a group. All sequences of up to 4 of 7 kinds of word are enumerated, the number " +
			"of words and the length of each kind of word are swept, the rest is random. Non-trivial: a distinct display name.",
		MinNontrivial: fixed(1000),
	},
		dictNames(),
		section{"counts", fixed(len(counts)), func(c *Ctx, i int) {
			// so many folds, escapes, spaces and so on in one word
			n := counts[len(counts)-1-i]
			for k, r := range repeats(n) {
				c.name("counts", "\""+r.src+"\"", r.val)
				if c.thorough || (i+k)%3 == 0 {
					c.name("counts", "A \""+r.src+"\"", "A "+r.val)
					c.name("counts", "\""+r.src+"\\ \" =?utf-8?q?B?=", r.val+"  B")
				}
			}
			for _, r := range repeatedComments(n) {
				c.name("counts", r+"A "+r+"B"+r, "A B")
			}
		}},
		section{"sequences", tiers(7+49+343+600, 7+49+343+2401), func(c *Ctx, i int) {
			n, base := 1, 0
			for k := 7; ; k *= 7 {
				if i < base+k || n == 4 {
					break
				}
				base += k
				n++
			}
			v := i - base
			if n == 4 && !c.thorough {
				v = (v*4 + int(uint64(c.seed)%4)) % 2401
			}
			var kinds []int
			for k := 0; k < n; k++ {
				kinds = append(kinds, v%7)
				v /= 7
			}
			if kinds[0] == 3 || kinds[0] == 4 {
				return // a name starts with a word
			}
			for _, spaced := range []bool{true, false} {
				src, val := name(kinds, spaced)
				c.name("sequence", src, val)
			}
		}},
		section{"equal-words", fixed(len(equalTexts)), func(c *Ctx, i int) {
			// words that say the same as other words of the name or as the address
			t := equalTexts[i]
			other := []string{t, flipCase(t), t + "x", string([]rune(t)[1:]), "x"}
			form := func(k int, s string) string {
				switch k {
				case 1:
					return "\"" + s + "\""
				case 2:
					return "=?utf-8?q?" + c.g.EncodeQ(s, false) + "?="
				}
				return s
			}
			for k := 0; k < 9; k++ {
				for j, u := range other {
					if u == "" {
						continue
					}
					sep := " "
					if k == 8 { // adjacent encoded words
						sep = ""
					}
					c.name("equal-words", form(k%3, t)+" "+form(k/3, u), t+sep+u)
					if c.thorough || (i+j+k)%3 == 0 {
						c.name("equal-words", form(k%3, t)+" "+form(0, "y")+" "+form(k/3, u), t+" y "+u)
						c.name("equal-words", form(k%3, t)+"."+form(k/3, u), t+"."+u)
						c.name("equal-words", form(0, t)+" \"\" "+form(1, u)+" "+form(0, t), t+"  "+u+" "+t)
					}
				}
			}
			// the address again as the name, in quotes or not
			for _, a := range []string{t + "@b", "a@" + t, t + "@" + t} {
				for _, n := range [][2]string{{a, a}, {form(1, a), a}, {form(1, "<"+a+">"), "<" + a + ">"}, {form(2, a), a}, {t, t}, {"b", "b"}} {
					c.ExpectAddrs("equal-words", n[0]+" <"+a+">", one(n[1], a))
					c.Nontrivial(n[0] + a)
				}
			}
		}},
		section{"many-words", fixed(len(words)), func(c *Ctx, i int) {
			n := words[len(words)-1-i]
			if n == 0 {
				return
			}
			for _, k := range [][]int{{0}, {1}, {2}, {0, 1, 2}, {0, 3}, {0, 2}} {
				if n > 70 && len(k) > 1 {
					continue
				}
				var kinds []int
				for j := 0; j < n; j++ {
					kinds = append(kinds, k[j%len(k)])
				}
				src, val := name(kinds, true)
				c.name("many-words", src, val)
			}
		}},
		section{"lengths", fixed(len(lengths)), func(c *Ctx, i int) {
			n := lengths[len(lengths)-1-i]
			w := rep(n)
			if n > 0 {
				c.name("atom-length", w, w)
				c.name("b-length", c.g.Encode("utf-8", w), w)
			}
			c.name("quoted-length", "\""+w+"\"", w)
			if n <= 520 {
				c.name("quoted-pairs", "\""+strings.Repeat("\\\"", n)+"\"", strings.Repeat("\"", n))
				c.name("quoted-spaces", "\"a"+strings.Repeat(" ", n)+"b\"", "a"+strings.Repeat(" ", n)+"b")
				c.name("quoted-nonascii", "\""+strings.Repeat("é", n)+"😀\"", strings.Repeat("é", n)+"😀")
			}
			if n > 0 && n <= 260 {
				c.name("gap", "a"+strings.Repeat(" ", n)+"b", "a b")
				c.name("dots", "a"+strings.Repeat(".", n)+"b", "a"+strings.Repeat(".", n)+"b")
			}
		}},
		section{"quoted-ends", fixed(len(quotedEnds)), func(c *Ctx, i int) {
			for _, w := range []string{"a", "ab", "é", "😀", "x y", "x  y", ","} {
				if strings.Contains(quotedEnds[i], "\\%s") && w == "" {
					continue
				}
				src := strings.Replace(quotedEnds[i], "%s", w, 1)
				val := src[1 : len(src)-1]
				val = strings.ReplaceAll(val, "\r\n", "")
				val = strings.NewReplacer("\\\\", "\\", "\\\"", "\"", "\\ ", " ", "\\"+w, w).Replace(val)
				c.name("quoted-ends", src, val)
				c.name("quoted-ends", "K "+src+" L", "K "+val+" L")
				c.name("quoted-ends", "=?utf-8?q?K?= "+src+".", "K "+val+".")
			}
		}},
		section{"quoted-verbatim", fixed(40), func(c *Ctx, i int) {
			// inside quotes nothing is syntax: not encoded words, comments, lists
			for _, w := range []string{"=?utf-8?Q?x?=", "(c)", "a@b, c@d", "<a@b>", "g:;", " =?x?= ", "a.b@c", ",", ";", ":", "=?utf-8?b?YQ==?=", "J. R. (x) <y>"} {
				src, val := c.g.Quoted(10)
				c.name("verbatim", src[:len(src)-1]+w+"\"", val+w)
				c.name("verbatim", "\""+w+src[1:], w+val)
			}
		}},
		section{"random", tiers(2600, 30000), func(c *Ctx, i int) {
			if i%5 == 0 {
				c.g.Plain = true
			}
			src, val := c.g.DisplayName(12)
			if c.Construct(src+"<a@b>", one(val, "a@b"), nil, 1500) {
				c.name("random", src, val)
			}
		}},
		section{"long-random", tiers(60, 600), func(c *Ctx, i int) {
			var src, val string
			for n := 4 + c.rng.Intn(12); n > 0; n-- {
				s, v := c.g.Quoted(120)
				if val != "" {
					val += " "
				}
				src += s
				val += v
			}
			c.name("long-random", src, val)
		}},
	)
}

// name monitors a display name in one of several surroundings.
func (c *Ctx) name(kind, src, val string) {
	ctx := int(hash(src) % 6)
	if len(src) > 200 {
		ctx = 0
	}
	switch ctx {
	case 4:
		c.ExpectAddrs(kind, "p@q, "+src+"<a@b>", append(one("", "p@q"), one(val, "a@b")...))
	case 5:
		c.ExpectAddrs(kind, "g:"+src+"<a@b>;", one(val, "a@b"))
	default:
		c.ExpectAddrs(kind, src+"<a@b>", one(val, "a@b"))
	}
	c.Nontrivial(src)
	c.Sample("%q -> %q", src, val)
}
