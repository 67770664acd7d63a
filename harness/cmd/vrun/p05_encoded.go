package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
)

// crCall is one event of the CharsetReader log.
type crCall struct{ Charset, Data string }

// recorder is a CharsetReader that logs its calls and converts with conv.
type recorder struct {
	mu   sync.Mutex
	log  []crCall
	conv func(charset, data string) (io.Reader, error)
}

func (r *recorder) read(charset string, input io.Reader) (io.Reader, error) {
	b, err := io.ReadAll(input)
	if err != nil {
		return nil, err
	}
	r.mu.Lock()
	r.log = append(r.log, crCall{charset, string(b)})
	r.mu.Unlock()
	return r.conv(charset, string(b))
}

// brackets is a conversion that shows what it was given.
func brackets(charset, data string) (io.Reader, error) {
	return strings.NewReader("⟦" + charset + "|" + hexOf(data) + "⟧"), nil
}

func hexOf(s string) string { return fmt.Sprintf("%x", s) }

var errUnknown = errors.New("unknown charset")

func madeUp(charset, data string) (io.Reader, error) {
	switch charset {
	case "x-rot", "x-up":
		return strings.NewReader(gen.Convert(charset, data)), nil
	}
	return nil, errUnknown
}

func latin1(b byte) string { return string(rune(b)) }

// hookCharsets are names of charsets that are not built in.
var hookCharsets = []string{"utf8", "utf-16", "utf-7", "iso-8859-2", "iso-8859-15", "iso-8859-11", "windows-1252", "koi8-r", "big5", "gb2312", "iso-2022-jp", "euc-kr", "x", "cp850", "macintosh", "ascii", "latin1", "iso8859-1", "utf-8859-1", "us_ascii", "x-Ünicode", "utf-80", "iso-8859-1-x", "us-asci", "utf_8", "unicode-1-1-utf-8", "latin-1", "l1", "cp1252", "windows-28591", "iso_8859-1", "iso88591", "8859-1", "ibm819", "cp819", "iso646-us", "us", "ibm367", "binary", "unknown-8bit", "x-unknown", "default", "none", "null", "utf-16le", "utf-16be", "utf-32", "gbk", "gb18030", "shift_jis", "euc-jp", "koi8-u", "tis-620", "ks_c_5601-1987", "cp932", "windows-1251", "windows-1250", "utf-8*en", "iso-8859-1*de", "utf-8-sig", "cesu-8", "wtf-8"}

func init() {
	b64 := base64.StdEncoding.EncodeToString
	lens := sweepSizes(80, 760)
	charsets := hookCharsets
	// outputs are texts a hook may deliver.
	var outputs []string
	for b := 0; b < 256; b++ {
		outputs = append(outputs, string([]byte{byte(b)}))
	}
	outputs = append(outputs, "", "\ufeff", "\ufeffa", "\ufffd", "a\x00b", "\x00\x00", "\r\n", "\r\n a", " a ", "\ta\t", "=?utf-8?q?b?=", "=?x-c?q?b?=", "\"a\"", "a\\", "<a@b>", "a, b", "(c)",
		"\xff\xfe", "\xc3", "\xed\xa0\x80", "\u2028", "\u200b", "\u00ad", "e\u0301", "é", "李", "😀", "\U0010ffff", "\u202e", "%s%d%!", "a+b", "a_b", "=41", "&amp;", "null", "\x1b[0m", "\x1b$B")
	for _, n := range []int{10, 63, 64, 65, 75, 76, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 998, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 1} {
		outputs = append(outputs, rep(n))
	}
	sections(&Prop{
		ID: "P05",
		Rule: "An input is a display name of encoded words rendered from bytes; the expected text and the expected CharsetReader call log (charset in lower case, exact bytes, " +
			"one call per word in order, none for built-in charsets or comments) are known by construction. All 256 byte values in Q (both hex cases) and B and in each built-in charset, all raw characters " +
			"of encoded text, payload lengths 0..80 and beyond, charset spellings and gaps between words are swept; the rest is random. Non-trivial: a distinct input.",
		MinNontrivial: fixed(1500),
		Assume:        []string{"an encoded word that cannot be decoded keeps its source text (mime.WordDecoder reports it as an error)"},
	},
		dictEncoded(),
		section{"every-byte", fixed(256), func(c *Ctx, i int) {
			b := byte(i)
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			for _, e := range []string{fmt.Sprintf("Q?=%02X", b), fmt.Sprintf("q?=%02x", b), "B?" + b64([]byte{b}), fmt.Sprintf("Q?x=%02Xy", b), "b?" + b64([]byte{'x', b, 'y'})} {
				raw := string([]byte{b})
				if strings.Contains(e, "x=") || strings.Contains(e, "?eH") || len(e) == 6 && e[0] == 'b' {
					raw = "x" + raw + "y"
				}
				utf, ascii, lat := raw, raw, ""
				for k := 0; k < len(raw); k++ {
					lat += latin1(raw[k])
				}
				if b >= 0x80 {
					ascii = strings.ReplaceAll(raw, string([]byte{b}), "\ufffd")
				}
				c.word("byte-utf-8", "=?utf-8?"+e+"?=", utf, nil, r)
				c.word("byte-iso-8859-1", "=?ISO-8859-1?"+e+"?=", lat, nil, r)
				c.word("byte-us-ascii", "=?us-ascii?"+e+"?=", ascii, nil, r)
				c.word("byte-custom", "=?X-Custom?"+e+"?=", "⟦x-custom|"+hexOf(raw)+"⟧", []crCall{{"x-custom", raw}}, r)
			}
		}},
		section{"byte-pairs", fixed(64), func(c *Ctx, i int) {
			// long payloads through a custom charset: every byte value arrives exactly
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			var raw []byte
			for k := 0; k < 24; k++ {
				raw = append(raw, byte(c.rng.Intn(256)))
			}
			c.word("bytes", "=?x-c?B?"+b64(raw)+"?=", "⟦x-c|"+hexOf(string(raw))+"⟧", []crCall{{"x-c", string(raw)}}, r)
			c.word("bytes", "=?x-c?Q?"+c.g.EncodeQ(string(raw), false)+"?=", "⟦x-c|"+hexOf(string(raw))+"⟧", []crCall{{"x-c", string(raw)}}, r)
		}},
		section{"q-characters", fixed(95), func(c *Ctx, i int) {
			ch := string(rune(' ' + i))
			if ch == " " || ch == "?" || ch == "=" {
				return
			}
			want := ch
			if ch == "_" {
				want = " "
			}
			for _, t := range []string{ch, ch + ch, "a" + ch + "b", ch + "a", "a" + ch} {
				c.word("q-character", "=?utf-8?Q?"+t+"?=", strings.ReplaceAll(t, ch, want), nil, nil)
			}
		}},
		section{"lengths", fixed(len(lens)), func(c *Ctx, i int) {
			n := lens[len(lens)-1-i]
			if n == 0 {
				return
			}
			w := rep(n)
			c.word("length", "=?utf-8?B?"+b64([]byte(w))+"?=", w, nil, nil)
			if n <= 260 {
				c.word("length", "=?utf-8?Q?"+w+"?=", w, nil, nil)
				c.word("length", "=?utf-8?Q?"+strings.Repeat("_", n)+"x?=", strings.Repeat(" ", n)+"x", nil, nil)
			}
			if n >= 2 && n <= 130 {
				u := strings.Repeat("é", n/2)
				c.word("length", "=?utf-8?B?"+b64([]byte(u))+"?=", u, nil, nil)
			}
		}},
		section{"unpadded", fixed(40), func(c *Ctx, i int) {
			// base64 of every length modulo 3, padded as it must be
			raw := strings.Repeat("\x00\xff~", i/3+1) + "é日"[:i%3]
			if !utf8.ValidString(raw) {
				r := &recorder{conv: brackets}
				rfc5322.CharsetReader = r.read
				c.word("padding", "=?x-c?b?"+b64([]byte(raw))+"?=", "⟦x-c|"+hexOf(raw)+"⟧", []crCall{{"x-c", raw}}, r)
			}
		}},
		section{"charset-case", tiers(150, 600), func(c *Ctx, i int) {
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			mix := func(s string) string {
				b := []byte(s)
				for k := range b {
					if b[k] >= 'a' && b[k] <= 'z' && c.rng.Intn(2) == 0 {
						b[k] -= 32
					}
				}
				return string(b)
			}
			enc := []string{"Q", "q"}[i%2]
			c.word("case", "=?"+mix("utf-8")+"?"+enc+"?=C3=A9?=", "é", nil, r)
			c.word("case", "=?"+mix("iso-8859-1")+"?"+enc+"?=E9?=", "é", nil, r)
			c.word("case", "=?"+mix("us-ascii")+"?"+enc+"?=65?=", "e", nil, r)
			cs := charsets[i%len(charsets)]
			if strings.Contains(cs, "Ü") {
				return
			}
			c.word("case", "=?"+mix(cs)+"?"+enc+"?=E9z?=", "⟦"+cs+"|e97a⟧", []crCall{{cs, "\xe9z"}}, r)
		}},
		section{"charset-names", tiers(120, 1500), func(c *Ctx, i int) {
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			cs := ""
			for n := 1 + c.rng.Intn(20); n > 0; n-- {
				cs += string("abcdefghijklmnopqrstuvwxyz0123456789-_ABCXYZ"[c.rng.Intn(44)])
			}
			low := strings.ToLower(cs)
			if low == "utf-8" || low == "us-ascii" || low == "iso-8859-1" {
				return
			}
			c.word("charset-name", "=?"+cs+"?Q?d?=", "⟦"+low+"|64⟧", []crCall{{low, "d"}}, r)
			rfc5322.CharsetReader = nil
			c.word("no-hook", "=?"+cs+"?Q?d?=", "=?"+cs+"?Q?d?=", nil, nil)
		}},
		section{"no-hook", fixed(len(charsets)), func(c *Ctx, i int) {
			// without a hook, only the built-in charsets are decoded
			for _, cs := range []string{charsets[i], strings.ToUpper(charsets[i])} {
				if !isToken(cs) {
					continue // no encoded word
				}
				for _, w := range []string{"=?" + cs + "?Q?d?=", "=?" + cs + "?Q?=E9_z?=", "=?" + cs + "?B?6Q==?=", "=?" + cs + "?q?=C3=A9?="} {
					rfc5322.CharsetReader = nil
					c.word("no-hook", w, w, nil, nil)
					c.word("no-hook", w+" =?utf-8?Q?z?=", w+"z", nil, nil)
				}
			}
		}},
		section{"hook-output", fixed(len(outputs)), func(c *Ctx, i int) {
			// whatever text the hook delivers is the text of the word
			for k, out := range []string{outputs[i], "A" + outputs[i], outputs[i] + "Z", outputs[i] + outputs[i]} {
				r := &recorder{conv: func(_, _ string) (io.Reader, error) { return strings.NewReader(out), nil }}
				rfc5322.CharsetReader = r.read
				c.word("hook-output", "=?x-c?q?a?=", out, []crCall{{"x-c", "a"}}, r)
				if k < 2 && len(out) < 10000 {
					c.word("hook-output", "=?x-c?q?a?= =?utf-8?q?b?=", out+"b", []crCall{{"x-c", "a"}}, r)
					c.word("hook-output", "Q =?x-c?b?YQ==?= \"r\"", "Q "+out+" r", []crCall{{"x-c", "a"}}, r)
				}
				// the same bytes in a charset that is built in
				if len(out) < 300 && out != "" {
					c.word("plain-output", "=?utf-8?b?"+b64([]byte(out))+"?=", out, nil, r)
				}
				// the same bytes in longer text
				if n := len(out); n < 40 && (i >= 256 && (k+i)%2 == 0 || k == 0) && ((i+k)%3 == 0 || n > 1 || c.thorough) {
					for _, long := range []string{rep(30) + out + rep(50), out + rep(90), rep(70+i%10) + out, out + rep(20) + out + rep(60) + out} {
						few := i < 256 && !c.thorough
						if few && (len(long)+i)%3 != 0 {
							continue
						}
						if !few || i%2 == 0 {
							c.word("long-output", "=?utf-8?q?"+c.g.EncodeQ(long, false)+"?=", long, nil, r)
						}
						if !few || i%2 == 1 {
							c.word("long-output", "=?utf-8?b?"+b64([]byte(long))+"?=", long, nil, r)
						}
					}
				}
				// a hook that leaves the reading to the library
				if len(out) < 300 && out != "" {
					rfc5322.CharsetReader = func(_ string, in io.Reader) (io.Reader, error) { return in, nil }
					c.word("handed-through", "=?x-c?b?"+b64([]byte(out))+"?=", out, nil, nil)
				}
			}
		}},
		section{"encodings", fixed(95), func(c *Ctx, i int) {
			// b and q, in either case, are the only encodings
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			e := string(rune(' ' + i))
			if strings.Contains(" ?()<>@,;:\\\"/[]?.=", e) {
				return
			}
			for _, e := range []string{e, e + e, e + "b", "q" + e, e + "uoted", "b" + e + "se64", e + "*"} {
				for _, cs := range []string{"utf-8", "x-c", "us-ascii", "ISO-8859-1"} {
					src := "=?" + cs + "?" + e + "?YQ?="
					if strings.ContainsAny(e, "bBqQ") && len(e) == 1 {
						continue
					}
					c.word("encoding", src, src, nil, r)
				}
			}
		}},
		section{"gaps", fixed(30), func(c *Ctx, i int) {
			// encoded words next to each other join, whatever separates them
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			gap := []string{"", " ", "\t", "  ", "\r\n ", " \r\n\t", "(c)", " (c) ", "(=?x-c?Q?no?=)", "(a(b)c)"}[i%10]
			ws := []string{"=?utf-8?Q?a_?=", "=?x-c?Q?b?=", "=?utf-8?B?w6k=?="}
			ws[0], ws[i/10%3] = ws[i/10%3], ws[0]
			vs := map[string]string{"=?utf-8?Q?a_?=": "a ", "=?x-c?Q?b?=": "⟦x-c|62⟧", "=?utf-8?B?w6k=?=": "é"}
			src, val := "", ""
			for k, w := range ws {
				if k > 0 {
					src += gap
				}
				src += w
				val += vs[w]
			}
			c.word("gap", src, val, []crCall{{"x-c", "b"}}, r)
			sep := gap
			if strings.TrimLeft(sep, " ") == sep && sep == "" {
				sep = " "
			}
			c.word("gap-atom", "A"+sep+src+sep+"Z", "A "+val+" Z", []crCall{{"x-c", "b"}}, r)
			c.word("gap-quoted", "\"A\""+gap+src+gap+"\"Z\"", "A "+val+" Z", []crCall{{"x-c", "b"}}, r)
		}},
		section{"call-order", tiers(120, 1500), func(c *Ctx, i int) {
			// several mailboxes: calls arrive in input order, once per word
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			var parts []string
			var log []crCall
			var vals []string
			for m := 1 + c.rng.Intn(4); m > 0; m-- {
				src, val := "", ""
				for k := 1 + c.rng.Intn(4); k > 0; k-- {
					d := fmt.Sprintf("d%d", c.rng.Intn(3)) // repeated words must be converted again
					if c.rng.Intn(4) == 0 {
						src += " =?utf-8?Q?" + d + "?= "
						val += d
						continue
					}
					cs := []string{"x-a", "X-B"}[c.rng.Intn(2)]
					src += " =?" + cs + "?q?" + d + "?= "
					val += "⟦" + strings.ToLower(cs) + "|" + hexOf(d) + "⟧"
					log = append(log, crCall{strings.ToLower(cs), d})
				}
				parts = append(parts, src+"<a@b>")
				vals = append(vals, val)
			}
			in := strings.Join(parts, ",")
			res := c.Addr(in)
			ok := res.Err == nil && res.Panic == nil && len(res.Addrs) == len(vals)
			for k := 0; ok && k < len(vals); k++ {
				ok = res.Addrs[k].Name == vals[k]
			}
			if !ok {
				c.Fail("call-order-value", in, fmt.Sprintf("names %q", vals), res.addrString())
			} else if fmt.Sprint(r.log) != fmt.Sprint(log) {
				c.Fail("call-order", in, fmt.Sprintf("CharsetReader calls %q", log), fmt.Sprintf("%q", r.log))
			}
			c.Count("charset.calls", len(r.log))
			c.Nontrivial(in)
		}},
		section{"undecodable", fixed(1), func(c *Ctx, _ int) {
			// no reader for the charset, or broken encodings: the word stays as written
			for _, w := range []string{"=?x-none?Q?a?=", "=?utf-8?B?!?=", "=?utf-8?B?YQ?=", "=?utf-8?B?YQ=?=", "=?utf-8?Q?=?=", "=?utf-8?Q?=4?=", "=?utf-8?Q?=GG?=", "=?utf-8?X?a?=", "=?utf-8?B?=YQ==?="} {
				rfc5322.CharsetReader = nil
				c.word("undecodable", w, w, nil, nil)
				c.word("undecodable", "A "+w+" =?utf-8?Q?z?=", "A "+w+"z", nil, nil)
			}
			for _, w := range []string{"=?utf-8?Q??=", "=?utf-8?Q?a b?=", "=??Q?a?=", "=?utf-8??a?=", "=?utf-8?Q?a?", "?utf-8?Q?a?="} {
				c.language(w+" <a@b>", "almost-encoded")
			}
		}},
		section{"not-decoded", fixed(1), func(c *Ctx, _ int) {
			// words inside comments, quotes, local parts and domains are not decoded
			r := &recorder{conv: brackets}
			rfc5322.CharsetReader = r.read
			w := "=?x-c?Q?no?="
			for _, x := range [][3]string{
				{"(" + w + ") N <a@b>", "N", "a@b"},
				{"N <a@b> (" + w + ")", "N", "a@b"},
				{"N(" + w + ")M <a@b>", "N M", "a@b"},
				{"\"" + w + "\" <a@b>", w, "a@b"},
				{w + "@b", "", w + "@b"},
				{"<" + w + "@b>", "", w + "@b"},
				{"<\"" + w + "\"@b>", "", w + "@b"},
				{"N <a@" + w + ">", "N", "a@" + w},
				{"N <a@[" + w + "]>", "N", "a@[" + w + "]"},
			} {
				c.ExpectAddrs("not-decoded", x[0], one(x[1], x[2]))
				c.Nontrivial(x[0])
			}
			if len(r.log) != 0 {
				c.Fail("not-decoded-calls", w, "no CharsetReader call", fmt.Sprintf("%q", r.log))
			}
		}},
		section{"random", tiers(2200, 25000), func(c *Ctx, i int) {
			r := &recorder{conv: madeUp}
			rfc5322.CharsetReader = r.read
			c.g.Charsets = true
			var src, val string
			if i%2 == 0 {
				src, val = c.g.EncodedWord(80)
			} else {
				src, val = c.g.DisplayName(6)
			}
			if c.Construct(src+"<a@b>", one(val, "a@b"), func(cs string, in io.Reader) (io.Reader, error) {
				b, _ := io.ReadAll(in)
				return madeUp(cs, string(b))
			}, 1500) {
				c.ExpectAddrs("random", src+"<a@b>", one(val, "a@b"))
				c.Nontrivial(src)
				c.Count("charset.calls", len(r.log))
				for _, e := range r.log {
					if e.Charset != "x-up" && e.Charset != "x-rot" {
						c.Fail("random-charset", src, "calls for x-up and x-rot only", fmt.Sprintf("%q", r.log))
					}
				}
			}
		}},
	)
}

// word monitors a display name and, if a recorder is given, the calls it saw.
func (c *Ctx) word(kind, src, val string, log []crCall, r *recorder) {
	if r != nil {
		r.log = nil
	}
	c.ExpectAddrs(kind, src+" <a@b>", one(val, "a@b"))
	if r != nil {
		if fmt.Sprint(r.log) != fmt.Sprint(log) {
			c.Fail(kind+"-calls", src, fmt.Sprintf("CharsetReader calls %q", log), fmt.Sprintf("%q", r.log))
		}
		c.Count("charset.calls", len(r.log))
	}
	c.Nontrivial(src)
	c.Sample("%q -> %q", src, val)
}
