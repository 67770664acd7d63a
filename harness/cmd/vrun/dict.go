package main

import (
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/mail"
	"strings"
	"sync"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

// The dictionary sections put words that the code may treat specially into
// every place of the syntax: words with a meaning in mail or in programs at
// large, and the literals of the source under test (see mined). Literals that
// the source did not have when the harness was written are tried most.

//go:embed corpus/literals.json
var literalsText []byte

// notable are words that programs that handle mail are known to treat specially.
var notable = []string{
	"localhost", "MAILER-DAEMON", "postmaster", "Postmaster", "undisclosed-recipients", "undisclosed", "null", "NULL", "nil", "undefined", "none", "None", "unknown", "admin", "root", "nobody",
	"noreply", "no-reply", "anonymous", "invalid", "test", "example", "example.com", "127.0.0.1", "IPv6:", "IPv6:::1", "ipv6", "tag:IPv6", "xn--", "xn--9ca", "mailto:", "smtp:", "SMTP:", "RFC822;",
	"via", "on behalf of", "'", "''", "`", "``", "´", "\u201c", "\u201d", "\u2018", "\u2019", "«", "»", "\"", "\"\"", "\\", "\\\\", "\\\"", "\\n", "\\r\\n", "%", "%%", "%s", "%v", "%d", "%40", "%20", "%00",
	"!", "!!", "+", "++", "-", "--", "_", "__", "~", "*", "&", "&amp;", "&lt;", "&#", "$", "${x}", "#", "|", "^", "/", "//", "http://", "=", "==", "=20", "=5F", "=5f", "=3D", "=0A", "=00", "=?", "?=", "=?=", "?", "??", ".", "..", "...", "@", "@@",
	",", ", ", ";", "; ", ":", "::", "<", ">", "<>", "(", ")", "()", "[", "]", "[]", "{", "}", "{}", " ", "  ", "   ", "\t", "\t\t", " \t", "0", "00", "1", "-1", "0x", "1e9", "2000", "9999", "utf-8", "utf8", "UTF-8", "us-ascii", "iso-8859-1", "latin1",
	"true", "false", "NaN", "Inf", "EOF", "<EOF>", "END", "Re:", "Dr.", "Jr.", "J.", "von", "Z", "GMT", "UTC", "EST", "AM", "PM", "Mon", "Jan", "at", "AT", " at ", "dot", "[at]", "(at)", "\u00a0", "\u200b", "\ufeff", "\u00ad", "\u2028", "\u202e", "\u0130", "\u0131", "ß", "ſ", "K", "é", "e\u0301", "\ufffd", "\u3000", "\uff20", "\u3002", "😀", "👨‍👩‍👧", "日本",
}

type vocabT struct {
	known, fresh []string
	ints         []int64 // fresh numbers
}

// vocab splits the dictionary into words known from the start and fresh ones.
var vocab = sync.OnceValue(makeVocab)

func makeVocab() vocabT {
	var base struct {
		Words []string
		Ints  []int64
	}
	json.Unmarshal(literalsText, &base)
	old, seen := map[string]bool{}, map[string]bool{}
	for _, w := range base.Words {
		old[w] = true
	}
	oldInts := map[int64]bool{}
	for _, n := range base.Ints {
		oldInts[n] = true
	}
	var v vocabT
	add := func(w string) {
		if w != "" && !old[w] && !seen[w] {
			seen[w] = true
			v.fresh = append(v.fresh, w)
		}
	}
	for _, w := range mined().words {
		add(w)
	}
	for _, w := range v.fresh {
		// the parts of patterns and of lists of words
		if parts := strings.FieldsFunc(w, func(r rune) bool { return strings.ContainsRune("^$()[]{}*+?.\\|, ", r) }); len(parts) <= 8 {
			for _, x := range parts {
				if len(x) > 1 {
					add(x)
				}
			}
		}
	}
	for _, w := range append(append([]string{}, notable...), base.Words...) {
		if !seen[w] {
			seen[w] = true
			v.known = append(v.known, w)
		}
	}
	for _, n := range mined().ints {
		if !oldInts[n] {
			v.ints = append(v.ints, n)
			if n > 0 && n <= utf8.MaxRune {
				for _, r := range []rune{rune(n - 1), rune(n), rune(n + 1)} {
					if w := string(r); utf8.ValidRune(r) && !seen[w] {
						seen[w] = true
						v.fresh = append(v.fresh, w)
					}
				}
			}
		}
	}
	// the middles of ranges between fresh characters
	var rs []rune
	for _, w := range v.fresh {
		if r, n := utf8.DecodeRuneInString(w); n == len(w) && r > 0x7f {
			rs = append(rs, r)
		}
	}
	for i := range rs {
		for j := range rs {
			if m := string(rs[i] + (rs[j]-rs[i])/2); rs[i] < rs[j] && rs[j]-rs[i] < 0x3000 && utf8.ValidString(m) && !seen[m] && len(v.fresh) < 300 {
				seen[m] = true
				v.fresh = append(v.fresh, m)
			}
		}
	}
	if len(v.fresh) > 60 {
		v.fresh = v.fresh[:60]
	}
	return v
}

// dictionary is how many cases the dictionary sections have: one for each
// known word, a block of up to ten for each fresh word.
func dictionary() (n int, at func(i int) (w string, fresh bool, part int)) {
	v := vocab()
	parts := max(2, min(10, 100/max(1, len(v.fresh))))
	return len(v.known) + parts*len(v.fresh), func(i int) (string, bool, int) {
		if i < parts*len(v.fresh) {
			return v.fresh[i/parts], true, i % parts
		}
		return v.known[i-parts*len(v.fresh)], false, 0
	}
}

// texts are texts around a word; for fresh words also together with others.
func texts(c *Ctx, w string, fresh bool, part int) []string {
	all := []string{w, "a" + w, w + "a", w + "a" + w, "a" + w + "b", w + w, " " + w, w + " ", "x " + w + " y", w + " " + w}
	if !fresh {
		k := c.rng.Intn(len(all) - 1)
		return []string{w, all[1+k], all[1+(k+4)%(len(all)-1)]}
	}
	switch part {
	case 0:
		return all
	case 1:
		var out []string
		for _, t := range []string{strings.ToUpper(w), strings.ToLower(w), w + w + w, w + "-x", "1" + w, w + "1", w + ".", "." + w, "é" + w, w + "é"} {
			if t != w {
				out = append(out, t)
			}
		}
		return out
	}
	v := vocab()
	var out []string
	for k := 0; k < 5; k++ {
		o := v.fresh[c.rng.Intn(len(v.fresh))]
		if k == 4 {
			o = v.known[c.rng.Intn(len(v.known))]
		}
		out = append(out, []string{w + "a" + o, o + "a" + w, w + o, o + w, w + " a b " + o, "(" + w + "a" + o}[c.rng.Intn(6)])
	}
	return append(out, w+rep(1+c.rng.Intn(80)), rep(1+c.rng.Intn(80))+w)
}

// clean text can stand in a quoted string, as it is or as quoted pairs.
func quotable(s string) bool {
	for _, r := range s {
		if r == utf8.RuneError || r == '\n' || r == '\r' {
			return false
		}
	}
	return utf8.ValidString(s)
}

func isDtext(s string) bool {
	for _, r := range s {
		if r < 0x21 || r == 0x7f || r == '[' || r == ']' || r == '\\' {
			return false
		}
	}
	return utf8.ValidString(s)
}

func isDotAtom(s string) bool {
	for _, l := range strings.Split(s, ".") {
		if !gen.IsAtom(l) && !strings.Contains(l, "=?") || l == "" {
			return false
		}
	}
	return !strings.Contains(s, "=?")
}

// encodedRaw reports whether the text can stand in the text of an encoded word as it is.
func encodedRaw(s string) bool {
	for _, r := range s {
		if r < 0x21 || r > 0x7e || r == '?' {
			return false
		}
	}
	return s != ""
}

func q(cs, raw string) string {
	var b strings.Builder
	for i := 0; i < len(raw); i++ {
		fmt.Fprintf(&b, "=%02X", raw[i])
	}
	return "=?" + cs + "?Q?" + b.String() + "?="
}

func b64w(cs, raw string) string {
	return "=?" + cs + "?B?" + base64.StdEncoding.EncodeToString([]byte(raw)) + "?="
}

// dictNames: words in display names.
func dictNames() section {
	n, at := dictionary()
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		for k, t := range texts(c, w, fresh, part) {
			c.Count("dictionary.words", 1)
			if quotable(t) {
				s := "\"" + gen.Quote(t) + "\""
				c.name("dictionary-quoted", s, t)
				if fresh || (k+i)%3 == 0 {
					c.name("dictionary-quoted", "K "+s, "K "+t)
					c.name("dictionary-quoted", s+" L", t+" L")
				}
			}
			if gen.IsAtom(t) {
				c.name("dictionary-atom", t, t)
				c.name("dictionary-atom", "K "+t+" \"L\"", "K "+t+" L")
				if fresh {
					c.name("dictionary-atom", t+" L", t+" L")
					c.name("dictionary-atom", "=?utf-8?Q?x?= "+t, "x "+t)
					c.name("dictionary-atom", "K."+t, "K."+t)
					c.name("dictionary-atom", t+".", t+".")
				}
			}
			if t != "" && (fresh || (k+i)%2 == 0) {
				c.name("dictionary-encoded", q("utf-8", t), t)
				c.name("dictionary-encoded", "K "+b64w("utf-8", t)+" L", "K "+t+" L")
				if fresh {
					c.name("dictionary-encoded", "=?utf-8?Q?x?= "+q("utf-8", t)+" =?utf-8?Q?y?=", "x"+t+"y")
				}
			}
		}
	}}
}

var angleForms = []struct {
	text string
	name string
}{{"%s", ""}, {"<%s>", ""}, {"N <%s>", "N"}, {"\"N\"<@r,@s:%s>", "N"}, {"g:%s;", ""}, {"(c)<@r:%s>", ""}}

// dictAddrs: words in addresses.
func dictAddrs() section {
	n, at := dictionary()
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		check := func(kind string, k int, src, val string) {
			forms := []int{k % len(angleForms)}
			if fresh {
				forms = []int{0, 1, 2, 3, 4, 5}
				if part > 0 {
					forms = []int{k % 6, (k + 2) % 6, (k + 3) % 6}
				}
			}
			for _, f := range forms {
				in := strings.Replace(angleForms[f].text, "%s", src, 1)
				c.ExpectAddrs(kind, in, one(angleForms[f].name, val))
				c.Nontrivial(in)
			}
		}
		for k, t := range texts(c, w, fresh, part) {
			c.Count("dictionary.words", 1)
			k += i
			if quotable(t) {
				s := "\"" + gen.Quote(t) + "\""
				check("dictionary-quoted", k, s+"@b", t+"@b")
				if fresh {
					check("dictionary-quoted", k+1, s+".x@b", t+".x@b")
					check("dictionary-quoted", k+2, "x."+s+"@b", "x."+t+"@b")
				}
			}
			if isDotAtom(t) {
				check("dictionary-local", k+1, t+"@b", t+"@b")
				check("dictionary-domain", k+2, "a@"+t, "a@"+t)
				if fresh {
					check("dictionary-local", k+1, t+".x@b", t+".x@b")
					check("dictionary-local", k+1, t+"@"+t, t+"@"+t)
					check("dictionary-domain", k+1, "a@x."+t, "a@x."+t)
					check("dictionary-domain", k+1, "a@"+t+".", "a@"+t+".")
					check("dictionary-domain", k+1, "a@"+t+":25", "a@"+t+":25")
					check("dictionary-domain", k+1, "a@ "+t+" (c)", "a@"+t)
				}
				in := "<@" + t + ":a@b>"
				c.ExpectAddrs("dictionary-route", in, one("", "a@b"))
				in = "<@r:a@" + t + ">"
				c.ExpectAddrs("dictionary-route", in, one("", "a@"+t))
			}
			if isDtext(t) {
				check("dictionary-literal", k+3, "a@["+t+"]", "a@["+t+"]")
			}
			if allDigits(t) {
				check("dictionary-port", k+4, "a@b:"+t, "a@b:"+t)
			}
		}
	}}
}

func allDigits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

// dictEncoded: words in encoded words: raw and escaped text, charset names.
func dictEncoded() section {
	n, at := dictionary()
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		r := &recorder{conv: brackets}
		rfc5322.CharsetReader = r.read
		cr := func(cs string, in io.Reader) (io.Reader, error) {
			b, _ := io.ReadAll(in)
			return brackets(cs, string(b))
		}
		for _, t := range texts(c, w, fresh, part) {
			c.Count("dictionary.words", 1)
			if t != "" {
				for _, s := range []string{q("X-c", t), b64w("x-C", t), "=?x-c?q?" + c.g.EncodeQ(t, true) + "?="} {
					c.word("dictionary-bytes", s, "⟦x-c|"+hexOf(t)+"⟧", []crCall{{"x-c", t}}, r)
					if !fresh {
						break
					}
				}
				c.word("dictionary-utf-8", "=?utf-8?Q?"+c.g.EncodeQ(t, false)+"?=", t, nil, nil)
			}
			if encodedRaw(t) {
				// raw: the model decodes it, or keeps it as written
				for k, cs := range []string{"utf-8", "x-c", "us-ascii", "iso-8859-1"} {
					if !fresh && k != (i+len(t))%4 {
						continue
					}
					for _, e := range []string{"Q", "b"} {
						s := "=?" + cs + "?" + e + "?" + t + "?="
						r.log = nil
						c.AgreeAddrs("dictionary-raw", s+" <a@b>", cr)
						got := fmt.Sprint(r.log)
						var want []crCall
						ref.Addresses(s+" <a@b>", func(cs string, in io.Reader) (io.Reader, error) {
							b, _ := io.ReadAll(in)
							want = append(want, crCall{cs, string(b)})
							return brackets(cs, string(b))
						})
						if got != fmt.Sprint(want) {
							c.Fail("dictionary-calls", s, fmt.Sprintf("CharsetReader calls %q", want), got)
						}
						c.Nontrivial(s)
					}
				}
			}
			if cs := strings.ToLower(t); isToken(t) && cs != "utf-8" && cs != "us-ascii" && cs != "iso-8859-1" {
				c.word("dictionary-charset", "=?"+t+"?Q?d?=", "⟦"+cs+"|64⟧", []crCall{{cs, "d"}}, r)
				c.word("dictionary-charset", "=?"+t+"?Q?d?= =?"+t+"?b?ZA==?=", "⟦"+cs+"|64⟧⟦"+cs+"|64⟧", []crCall{{cs, "d"}, {cs, "d"}}, r)
			}
		}
	}}
}

func isToken(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') && !strings.ContainsRune("!#$%&'*+-\\^_`{|}~", r) {
			return false
		}
	}
	return s != ""
}

// dictComments: words in comments.
func dictComments() section {
	n, at := dictionary()
	hosts := []struct {
		text string
		want []ref.Addr
	}{
		{"N <a@b>%s", one("N", "a@b")}, {"a@b%s", one("", "a@b")}, {"%sa@b", one("", "a@b")}, {"a%s@b", one("", "a@b")}, {"a@%sb", one("", "a@b")}, {"J%sD<a@b>", one("J D", "a@b")},
		{"<a@b%s>", one("", "a@b")}, {"=?utf-8?Q?x?=%s=?utf-8?Q?y?= <a@b>", one("xy", "a@b")}, {"\"q\"%s<@r%s:a@b>", one("q", "a@b")}, {"g%s:%sa@b%s;%s", one("", "a@b")}, {"a@b,%s", one("", "a@b")},
		{"N %s<%sa@[1]>", one("N", "a@[1]")},
	}
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		for k, t := range texts(c, w, fresh, part) {
			if !quotable(t) {
				continue
			}
			c.Count("dictionary.words", 1)
			esc := strings.NewReplacer("\\", "\\\\", "(", "\\(", ")", "\\)", "\x00", "\\\x00").Replace(t)
			for h, x := range hosts {
				if !fresh && (h+i)%6 != 0 || fresh && part > 1 && (h+i+k)%4 != 0 {
					continue
				}
				com := []string{"(" + esc + ")", "(x " + esc + ")", "((" + esc + "))"}[(k+h)%3]
				in := strings.ReplaceAll(x.text, "%s", com)
				c.ExpectAddrs("dictionary-comment", in, x.want)
				c.Nontrivial(in)
			}
			d := ref.Date{Year: 1997, Month: 11, Day: 21, Hour: 9, Min: 55, Sec: 6, Offset: -21600, Zone: "-0600", HasZone: true}
			c.ExpectDate("dictionary-comment-date", "21 Nov 1997 09:55:06 -0600 ("+esc+")", d)
			if fresh {
				c.ExpectDate("dictionary-comment-date", "("+esc+")Fri(x),(x)21("+esc+")Nov 1997 09:55("+esc+"):06 -0600", d)
			}
		}
	}}
}

// dictRoundtrip: words in formatted addresses.
func dictRoundtrip() section {
	n, at := dictionary()
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		for k, t := range texts(c, w, fresh, part) {
			if !utf8.ValidString(t) || strings.ContainsRune(t, utf8.RuneError) {
				continue
			}
			c.Count("dictionary.words", 1)
			c.roundtrip("dictionary-name", mail.Address{Name: t, Address: "a@b.c"})
			if fresh {
				c.roundtrip("dictionary-name", mail.Address{Name: t + ", x", Address: "a@b.c"}, mail.Address{Name: "é " + t, Address: "d@e"})
				c.roundtrip("dictionary-name", mail.Address{Name: w + ", " + t + w, Address: "a@b.c"}, mail.Address{Name: w + "é" + w, Address: "d@e"})
			}
			if !strings.ContainsFunc(t, func(r rune) bool { return r < 0x20 || r == 0x7f }) && t != "" && (fresh || (i+k)%2 == 0) {
				c.roundtrip("dictionary-local", mail.Address{Address: t + "@b.c"})
				if isDotAtom(t) {
					c.roundtrip("dictionary-domain", mail.Address{Name: "N", Address: "a@" + t})
				}
			}
		}
	}}
}

// dictLanguage: words spliced into sentences; the model decides.
func dictLanguage(seeds []string, judge func(c *Ctx, s string)) section {
	n, at := dictionary()
	return section{"dictionary", fixed(n), func(c *Ctx, i int) {
		w, fresh, part := at(i)
		c.Count("dictionary.words", 1)
		for k, seed := range seeds {
			rs := []rune(seed)
			ps := []int{0, len(rs), c.rng.Intn(len(rs) + 1)}
			if fresh {
				ps = ps[:0]
				for p := part; p <= len(rs); p += 10 {
					ps = append(ps, p)
				}
				ps = append(ps, 0, len(rs))
			} else if (k+i)%3 != 0 {
				continue
			}
			for _, p := range ps {
				x := w
				if fresh && part > 0 {
					x = strings.Repeat(w, 1+c.rng.Intn(3))
				}
				judge(c, string(rs[:p])+x+string(rs[p:]))
				if fresh {
					judge(c, string(rs[:p])+x)
				}
			}
		}
	}}
}

// scaled are the growing families of P16 at many sizes, for the other monitors.
func scaled(max int, date bool, judge func(c *Ctx, f family, s string)) section {
	type at struct {
		f family
		n int
	}
	var all []at
	sizes := sweepSizes(12, 520)
	for _, f := range workFamilies {
		if f.date != date {
			continue
		}
		for _, n := range sizes {
			if n == 0 {
				continue
			}
			keep := n <= 12 || n == 16 || n == 17 || n == 32 || n == 33 || n == 50 || n == 65 || n == 101 || n == 129 || n == 257 || n == 513
			for _, m := range vocab().ints {
				keep = keep || int64(n) == m || int64(n) == m+1
			}
			if s := f.make(n); keep && len(s) <= max/(1+3*(f.degree-1)) {
				all = append(all, at{f, n})
			}
		}
	}
	return section{"scaled", fixed(len(all)), func(c *Ctx, i int) {
		x := all[len(all)-1-i]
		judge(c, x.f, x.f.make(x.n))
	}}
}
