package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strings"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

// scripted is a reader that hands out its data step by step.
type scripted struct {
	steps []step
	done  *int
}

type step struct {
	data string
	err  error
}

func (s *scripted) Read(p []byte) (int, error) {
	if len(s.steps) == 0 {
		return 0, io.EOF
	}
	st := &s.steps[0]
	n := copy(p, st.data)
	st.data = st.data[n:]
	if st.data != "" {
		return n, nil
	}
	err := st.err
	s.steps = s.steps[1:]
	return n, err
}

var errInjected = errors.New("injected fault")

// fault is one behaviour of a CharsetReader.
type fault struct {
	name string
	open func(data string) (io.Reader, error)
	want func(data string) (string, bool) // decoded text, or false: stays raw
}

func upper(d string) (string, bool) { return strings.ToUpper(d), true }
func raw(string) (string, bool)     { return "", false }

func script(steps ...step) io.Reader { return &scripted{steps: steps} }

type emptyError struct{}

func (emptyError) Error() string { return "" }

type temporary struct{}

func (temporary) Error() string   { return "temporary" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

var faults = []fault{
	{"good", func(d string) (io.Reader, error) { return strings.NewReader(strings.ToUpper(d)), nil }, upper},
	{"open-error", func(d string) (io.Reader, error) { return nil, errInjected }, raw},
	{"read-error-at-once", func(d string) (io.Reader, error) { return script(step{"", errInjected}), nil }, raw},
	{"read-error-midway", func(d string) (io.Reader, error) { return script(step{"PART", nil}, step{"", errInjected}), nil }, raw},
	{"error-with-data", func(d string) (io.Reader, error) { return script(step{strings.ToUpper(d), errInjected}), nil }, raw},
	{"unexpected-eof", func(d string) (io.Reader, error) { return script(step{"PART", io.ErrUnexpectedEOF}), nil }, raw},
	{"error-and-reader", func(d string) (io.Reader, error) { return strings.NewReader("NO"), errInjected }, raw},
	{"one-byte-reads", func(d string) (io.Reader, error) {
		var st []step
		for _, b := range []byte(strings.ToUpper(d)) {
			st = append(st, step{string([]byte{b}), nil})
		}
		return script(st...), nil
	}, upper},
	{"empty-reads", func(d string) (io.Reader, error) {
		return script(step{"", nil}, step{strings.ToUpper(d), nil}, step{"", nil}, step{"", io.EOF}), nil
	}, upper},
	{"many-empty-reads", func(d string) (io.Reader, error) {
		st := make([]step, 300)
		return script(append(append(st, step{strings.ToUpper(d), nil}), st...)...), nil
	}, upper},
	{"data-with-eof", func(d string) (io.Reader, error) { return script(step{strings.ToUpper(d), io.EOF}), nil }, upper},
	{"empty-output", func(d string) (io.Reader, error) { return strings.NewReader(""), nil }, func(string) (string, bool) { return "", true }},
	{"long-output", func(d string) (io.Reader, error) { return strings.NewReader(strings.Repeat("長い", 3000)), nil }, func(string) (string, bool) { return strings.Repeat("長い", 3000), true }},
	{"specials", func(d string) (io.Reader, error) { return strings.NewReader("\", <x@y>;(=?utf-8?Q?z?=)\r\n\x00"), nil }, func(string) (string, bool) { return "\", <x@y>;(=?utf-8?Q?z?=)\r\n\x00", true }},
	{"wrapped-eof", func(d string) (io.Reader, error) {
		return script(step{"PART", nil}, step{"", fmt.Errorf("charset: %w", io.EOF)}), nil
	}, raw},
	{"empty-error", func(d string) (io.Reader, error) { return nil, emptyError{} }, raw},
	{"eof-on-opening", func(d string) (io.Reader, error) { return nil, io.EOF }, raw},
	{"temporary-error", func(d string) (io.Reader, error) {
		return script(step{"", temporary{}}, step{strings.ToUpper(d), nil}), nil
	}, raw},
	{"no-progress", func(d string) (io.Reader, error) { return script(step{"PART", nil}, step{"", io.ErrNoProgress}), nil }, raw},
	{"short-buffer", func(d string) (io.Reader, error) { return script(step{strings.ToUpper(d), io.ErrShortBuffer}), nil }, raw},
	{"closed-pipe", func(d string) (io.Reader, error) {
		r, w := io.Pipe()
		go func() {
			io.WriteString(w, "PART")
			w.CloseWithError(errInjected)
		}()
		return r, nil
	}, raw},
	{"good-pipe", func(d string) (io.Reader, error) {
		r, w := io.Pipe()
		go func() {
			io.WriteString(w, strings.ToUpper(d))
			w.Close()
		}()
		return r, nil
	}, upper},
	{"nul-output", func(d string) (io.Reader, error) { return strings.NewReader("\x00\x00"), nil }, func(string) (string, bool) { return "\x00\x00", true }},
	{"blank-output", func(d string) (io.Reader, error) { return strings.NewReader(" \t\r\n "), nil }, func(string) (string, bool) { return " \t\r\n ", true }},
	{"ill-formed-output", func(d string) (io.Reader, error) { return strings.NewReader("\xff\xc3x"), nil }, func(string) (string, bool) { return "\xff\xc3x", true }},
	{"replacement-output", func(d string) (io.Reader, error) { return strings.NewReader("a\ufffdb"), nil }, func(string) (string, bool) { return "a\ufffdb", true }},
	{"looks-raw", func(d string) (io.Reader, error) { return strings.NewReader("=?utf-8?Q?x?="), nil }, func(string) (string, bool) { return "=?utf-8?Q?x?=", true }},
	{"data-and-error-after-512", func(d string) (io.Reader, error) {
		return script(step{strings.Repeat("x", 512), nil}, step{"y", errInjected}), nil
	}, raw},
	{"late-error", func(d string) (io.Reader, error) {
		return script(step{strings.Repeat("x", 1000), nil}, step{strings.Repeat("y", 1000), nil}, step{"", errInjected}), nil
	}, raw},
}

// only is a reader of which nothing but Read is any use.
type only struct{ io.Reader }

func (only) Len() int                          { return 1 }
func (only) Size() int64                       { return 1 }
func (only) Seek(int64, int) (int64, error)    { return 0, errInjected }
func (only) ReadAt([]byte, int64) (int, error) { return 0, errInjected }
func (only) Close() error                      { return nil }
func (only) String() string                    { return "a reader" }
func (only) Bytes() []byte                     { return []byte("bytes") }
func past[R io.Reader](r R, n int) R           { io.ReadFull(r, make([]byte, n)); return r }
func fine(r io.Reader) (io.Reader, error)      { return r, nil }
func file(text string, pos int64) (io.Reader, error) {
	return past(strings.NewReader(text), int(pos)), nil
}

// kinds are readers of other types, at other places than their beginning.
var kinds = []fault{
	{"strings-reader-past", func(d string) (io.Reader, error) { return file("skip"+strings.ToUpper(d), 4) }, upper},
	{"bytes-reader-past", func(d string) (io.Reader, error) {
		return fine(past(bytes.NewReader([]byte("sk"+strings.ToUpper(d))), 2))
	}, upper},
	{"buffer-past", func(d string) (io.Reader, error) {
		return fine(past(bytes.NewBufferString("s"+strings.ToUpper(d)), 1))
	}, upper},
	{"buffer", func(d string) (io.Reader, error) { return fine(bytes.NewBufferString(strings.ToUpper(d))) }, upper},
	{"section", func(d string) (io.Reader, error) {
		return fine(io.NewSectionReader(strings.NewReader("skip"+strings.ToUpper(d)+"more"), 4, int64(len(d))))
	}, upper},
	{"section-past", func(d string) (io.Reader, error) {
		return fine(past(io.NewSectionReader(strings.NewReader("skip"+strings.ToUpper(d)+"more"), 2, int64(len(d)+2)), 2))
	}, upper},
	{"limited", func(d string) (io.Reader, error) {
		return fine(io.LimitReader(strings.NewReader(strings.ToUpper(d)+"more"), int64(len(d))))
	}, upper},
	{"multi", func(d string) (io.Reader, error) {
		u := strings.ToUpper(d)
		return fine(io.MultiReader(strings.NewReader(u[:1]), strings.NewReader(""), bytes.NewBufferString(u[1:])))
	}, upper},
	{"tee", func(d string) (io.Reader, error) {
		return fine(io.TeeReader(strings.NewReader(strings.ToUpper(d)), io.Discard))
	}, upper},
	{"bufio", func(d string) (io.Reader, error) { return fine(bufio.NewReader(strings.NewReader(strings.ToUpper(d)))) }, upper},
	{"bufio-peeked", func(d string) (io.Reader, error) {
		r := bufio.NewReaderSize(past(strings.NewReader("skip"+strings.ToUpper(d)), 4), 16)
		r.Peek(1)
		return r, nil
	}, upper},
	{"unread", func(d string) (io.Reader, error) {
		r := strings.NewReader(strings.ToUpper(d))
		r.ReadByte()
		r.UnreadByte()
		return r, nil
	}, upper},
	{"only-read", func(d string) (io.Reader, error) { return only{strings.NewReader(strings.ToUpper(d))}, nil }, upper},
	{"only-read-pointer", func(d string) (io.Reader, error) { return &only{strings.NewReader(strings.ToUpper(d))}, nil }, upper},
	{"read-up", func(d string) (io.Reader, error) { return file(d, int64(len(d))) }, func(string) (string, bool) { return "", true }},
}

func init() {
	n := len(faults)
	faults = append(faults, kinds...)
	layouts := 5
	lengths := sweepSizes(30, 1001)
	manyWords := sweepSizes(34, 66)
	run := func(c *Ctx, fs []int, layout int) {
		calls := 0
		rfc5322.CharsetReader = func(charset string, in io.Reader) (io.Reader, error) {
			calls++
			b, _ := io.ReadAll(in)
			var k int
			if _, err := fmt.Sscanf(charset, "x-f%d", &k); err != nil || k >= len(fs) {
				return nil, errUnknown
			}
			return faults[fs[k]].open(string(b))
		}
		var words, vals []string
		for k, f := range fs {
			d := fmt.Sprintf("w%c", 'a'+k)
			w := fmt.Sprintf("=?X-F%d?Q?%s?=", k, d)
			v, ok := faults[f].want(d)
			if !ok {
				v = w
			}
			words, vals = append(words, w), append(vals, v)
			c.Count("fault."+faults[f].name, 1)
		}
		// put a space where two words of a name meet
		joinVals := func(sep string, parts ...string) string {
			out := ""
			for _, p := range parts {
				if out != "" {
					out += sep
				}
				out += p
			}
			return out
		}
		var in string
		var want []ref.Addr
		switch layout {
		case 0: // side by side
			in, want = strings.Join(words, " ")+" <a@b>", one(strings.Join(vals, ""), "a@b")
		case 1: // among other words
			var s, v []string
			for k := range words {
				s = append(s, fmt.Sprintf("P%d", k), words[k])
				v = append(v, fmt.Sprintf("P%d", k), vals[k])
			}
			s, v = append(s, "\"end\""), append(v, "end")
			in = strings.Join(s, " ") + " <a@b>"
			want = one(strings.Join(v, " "), "a@b")
		case 2: // in mailboxes of their own
			var s []string
			for k := range words {
				s = append(s, fmt.Sprintf("%s <u%d@b>", words[k], k))
				want = append(want, ref.Addr{Name: vals[k], Address: fmt.Sprintf("u%d@b", k)})
			}
			s, want = append(s, "plain@b"), append(want, ref.Addr{Address: "plain@b"})
			in = strings.Join(s, ", ")
		case 3: // next to built-in charsets
			var s string
			var v string
			for k := range words {
				s += " =?utf-8?Q?u?= " + words[k] + " =?iso-8859-1?Q?=E9?="
				v += "u" + vals[k] + "é"
			}
			in, want = s+"<a@b>", one(v, "a@b")
		case 4: // in a group
			in = "g:" + strings.Join(words, "(c)") + " Q <a@b>, c@d;"
			want = append(one(joinVals(" ", strings.Join(vals, ""), "Q"), "a@b"), one("", "c@d")...)
		}
		c.ExpectAddrs("fault", in, want)
		c.Count("charset.calls", calls)
		if calls != len(fs) {
			c.Fail("fault-calls", in, fmt.Sprintf("%d CharsetReader calls", len(fs)), fmt.Sprint(calls))
		}
		c.Nontrivial(fmt.Sprint(fs, layout))
		c.Sample("faults %v in %q", fs, in)
	}
	sections(&Prop{
		ID: "P06",
		Rule: fmt.Sprintf("A case installs a CharsetReader that behaves in one of %d ways per encoded word (works, with %d more kinds of readers, fails on opening, fails at once, midway or at the end of reading, ", n, len(kinds)) +
			"short, empty and odd reads, hostile output) in 5 layouts. All single behaviours, all ordered pairs and all good/failing patterns of 4 words are enumerated; longer sequences are random. " +
			"A failing word must stay as written and nothing else may change. Non-trivial: a distinct fault sequence and layout.",
		MinNontrivial: fixed(1000),
		Assume:        []string{"the CharsetReader keeps its documented contract: one of its results is non-nil"},
	},
		section{"single", fixed(n * layouts), func(c *Ctx, i int) { run(c, []int{i % n}, i/n) }},
		section{"reader-kinds", fixed(len(kinds) * layouts * 3), func(c *Ctx, i int) {
			k := n + i%len(kinds)
			run(c, [][]int{{k}, {k, 0}, {1 + i%7, k}}[i/len(kinds)%3], i/len(kinds)/3)
		}},
		section{"pairs", fixed(n * n * layouts), func(c *Ctx, i int) { run(c, []int{i % n, i / n % n}, i/n/n) }},
		section{"patterns", fixed(16 * layouts * 3), func(c *Ctx, i int) {
			bad := []int{1, 3, 5}[i/16/layouts]
			var fs []int
			for k := 0; k < 4; k++ {
				fs = append(fs, []int{0, bad}[i>>k&1])
			}
			run(c, fs, i/16%layouts)
		}},
		section{"random", tiers(900, 9000), func(c *Ctx, i int) {
			var fs []int
			for k := 1 + c.rng.Intn(9); k > 0; k-- {
				fs = append(fs, c.rng.Intn(n))
			}
			run(c, fs, i%layouts)
		}},
		section{"many-failures", fixed(len(manyWords) * 3), func(c *Ctx, i int) {
			// however many words failed before, the next ones are what they are
			n := manyWords[len(manyWords)-1-i/3]
			at := n - 1
			if n > 2 {
				at = c.rng.Intn(n)
			}
			rfc5322.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) {
				if cs == "x-good" {
					return strings.NewReader("ok"), nil
				}
				return []func() (io.Reader, error){func() (io.Reader, error) { return nil, errInjected }, func() (io.Reader, error) { return script(step{"P", nil}, step{"", errInjected}), nil }}[n%2]()
			}
			var src, name string
			var parts []string
			var want []ref.Addr
			for k := 0; k <= n; k++ {
				w, v := "=?x-no?q?a?=", "=?x-no?q?a?="
				if k == at || k == n {
					w, v = "=?x-good?q?a?=", "ok"
				}
				src, name = src+w+" ", name+v
				parts, want = append(parts, w+"<a@b>"), append(want, ref.Addr{Name: v, Address: "a@b"})
			}
			switch i % 3 {
			case 0:
				c.ExpectAddrs("many-failures", src+"<a@b>", one(name, "a@b"))
			case 1:
				c.ExpectAddrs("many-failures", strings.Join(parts, ","), want)
			case 2:
				c.ExpectAddrs("many-failures", "X "+src+"Y<a@b>, z@z", append(one("X "+name+" Y", "a@b"), one("", "z@z")...))
			}
			c.Nontrivial(fmt.Sprint("many", n, at, i%3))
			if n > c.st.Counters["max.failing.words"] {
				c.st.Counters["max.failing.words"] = n
			}
		}},
		section{"payloads", tiers(500, 5000), func(c *Ctx, i int) {
			// failing words of any charset name, encoding and bytes, written in any way
			c.g.Charsets = true
			var words, vals []string
			fail := map[string]bool{}
			for k := 1 + c.rng.Intn(4); k > 0; k-- {
				raw := c.g.Text(false, false, 20)
				cs := gen.Pick(c.g, "x-a", "X-B", "iso-2022-jp", "UTF-16", "utf-7", "koi8-r", "Big5", "x-unknown", "utf8", "cp1252")
				fail[strings.ToLower(cs)] = c.rng.Intn(2) == 0
				words = append(words, c.g.Encode(cs, raw))
				vals = append(vals, strings.ToLower(cs)+"|"+raw)
			}
			for k, v := range vals {
				cs, raw, _ := strings.Cut(v, "|")
				vals[k] = "⟦" + v + "⟧"
				if fail[cs] {
					vals[k] = words[k]
				}
				_ = raw
			}
			rfc5322.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) {
				b, _ := io.ReadAll(in)
				if !fail[cs] {
					return strings.NewReader("⟦" + cs + "|" + string(b) + "⟧"), nil
				}
				if len(b)%2 == 0 {
					return nil, errInjected
				}
				return script(step{string(b), nil}, step{"", errInjected}), nil
			}
			in := strings.Join(words, " ") + " <a@b>"
			c.ExpectAddrs("payloads", in, one(strings.Join(vals, ""), "a@b"))
			c.Nontrivial(in)
		}},
		section{"lengths", fixed(len(lengths)), func(c *Ctx, i int) {
			// a failing word of any length stays as it is
			n := lengths[len(lengths)-1-i]
			if n == 0 {
				return
			}
			raw := rep(n)
			for k, w := range []string{"=?x-no?q?" + raw + "?=", "=?x-no?B?" + base64.StdEncoding.EncodeToString([]byte(raw)) + "?=", "=?x-no?q?" + strings.Repeat("=20_", n) + "?="} {
				if k > 0 && n > 300 && !c.thorough {
					continue
				}
				rfc5322.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) {
					if cs != "x-no" {
						return strings.NewReader("ok"), nil
					}
					b, _ := io.ReadAll(in)
					switch (i + k) % 3 {
					case 0:
						return nil, errInjected
					case 1:
						return script(step{string(b), nil}, step{"", errInjected}), nil
					}
					return script(step{string(b[:len(b)/2]), nil}, step{string(b[len(b)/2:]), io.ErrUnexpectedEOF}), nil
				}
				c.ExpectAddrs("lengths", w+"<a@b>", one(w, "a@b"))
				if n < 140 {
					c.ExpectAddrs("lengths", "=?x-ok?q?"+raw+"?= "+w+" X<a@b>", one("ok"+w+" X", "a@b"))
				}
				c.Nontrivial(w)
			}
		}},
		section{"charset-names", fixed(len(hookCharsets)), func(c *Ctx, i int) {
			// words of all charsets fail alike, whatever their bytes would mean elsewhere
			cs := hookCharsets[i]
			if !isToken(cs) {
				return // no charset name, so no encoded word
			}
			for k, raw := range []string{"plain", "h\u00e9llo", "h\xe9llo", "\xff\xfea\x00", "+AOk-", "\x1b$B", " "} {
				for n, w := range []string{"=?" + cs + "?Q?" + c.g.EncodeQ(raw, false) + "?=", "=?" + strings.ToUpper(cs) + "?b?" + base64.StdEncoding.EncodeToString([]byte(raw)) + "?="} {
					rfc5322.CharsetReader = func(string, io.Reader) (io.Reader, error) {
						switch (k + n) % 3 {
						case 0:
							return nil, fmt.Errorf("unhandled charset %q", cs)
						case 1:
							return script(step{"PART", nil}, step{"", errInjected}), nil
						}
						return script(step{raw, errInjected}), nil
					}
					c.ExpectAddrs("charset-names", w+" <a@b>", one(w, "a@b"))
					if k < 2 {
						c.ExpectAddrs("charset-names", "A "+w+" =?utf-8?q?b?= <a@b>, "+w+" =?us-ascii?q?c?=<c@d>", append(one("A "+w+"b", "a@b"), one(w+"c", "c@d")...))
					}
					c.Nontrivial(w)
				}
			}
		}},
		section{"same-word-again", tiers(120, 600), func(c *Ctx, i int) {
			// the same word several times; each use meets its own fault
			k := 2 + c.rng.Intn(5)
			var outcome []bool
			for j := 0; j < k; j++ {
				outcome = append(outcome, c.rng.Intn(2) == 0)
			}
			call := 0
			rfc5322.CharsetReader = func(string, io.Reader) (io.Reader, error) {
				call++
				if outcome[(call-1)%k] {
					return strings.NewReader("ok"), nil
				}
				return nil, errInjected
			}
			var parts []string
			var want []ref.Addr
			for _, good := range outcome {
				parts = append(parts, "=?x-s?B?YQ==?= <a@b>")
				v := "ok"
				if !good {
					v = "=?x-s?B?YQ==?="
				}
				want = append(want, ref.Addr{Name: v, Address: "a@b"})
			}
			c.ExpectAddrs("same-word", strings.Join(parts, ","), want)
			c.Nontrivial(fmt.Sprint("again", outcome))
		}},
	)
}
