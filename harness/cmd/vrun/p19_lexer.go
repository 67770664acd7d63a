package main

import (
	"fmt"
	"strings"

	"github.com/ProtonMail/go-rfc5322/parser"
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"vharness/ref"
)

// lexemes monitors a lexer that has just been given an input: one token per
// character, in order, of the class of the lexer grammar, with its text and
// place; then EOF, for as long as one asks; and no error is reported.
func (c *Ctx) lexemes(kind, in string, lex *parser.RFC5322Lexer, errs *errorLog) bool {
	runes := []rune(in)
	line, col := 1, 0
	fail := func(i int, want, got string) bool {
		c.Fail(kind, in, fmt.Sprintf("token %d: %s", i, want), got)
		return false
	}
	for i := 0; i <= len(runes)+1; i++ {
		t := lex.NextToken()
		if len(errs.msgs) > 0 {
			return fail(i, "no error", fmt.Sprintf("%q", errs.msgs))
		}
		if t == nil {
			return fail(i, "a token", "nil")
		}
		if i >= len(runes) {
			if t.GetTokenType() != antlr.TokenEOF {
				return fail(i, "EOF", fmt.Sprintf("type %d, text %q", t.GetTokenType(), t.GetText()))
			}
			continue
		}
		r := runes[i]
		k := t.GetTokenType()
		name := "?"
		if k == antlr.TokenEOF {
			name = "EOF"
		} else if k > 0 && k < len(lex.SymbolicNames) {
			name = lex.SymbolicNames[k]
		}
		want := ref.TokenName(ref.TokenOf(r))
		if name != want {
			return fail(i, fmt.Sprintf("%q is of class %s", r, want), name)
		}
		if k != tokenConsts[want][0] || k != tokenConsts[want][1] {
			return fail(i, fmt.Sprintf("%q has type %s, %d to the lexer and %d to the parser", r, want, tokenConsts[want][0], tokenConsts[want][1]), fmt.Sprint(k))
		}
		c.st.Rules[name]++
		if t.GetText() != string(r) {
			return fail(i, fmt.Sprintf("the text %q", r), fmt.Sprintf("%q", t.GetText()))
		}
		if t.GetStart() != i || t.GetStop() != i || t.GetLine() != line || t.GetColumn() != col || t.GetChannel() != antlr.TokenDefaultChannel {
			return fail(i, fmt.Sprintf("%q at %d..%d, line %d column %d, channel 0", r, i, i, line, col),
				fmt.Sprintf("at %d..%d, line %d column %d, channel %d", t.GetStart(), t.GetStop(), t.GetLine(), t.GetColumn(), t.GetChannel()))
		}
		if col++; r == '\n' {
			line, col = line+1, 0
		}
	}
	c.Count("tokens", len(runes))
	return true
}

// lex monitors a new lexer.
func (c *Ctx) lex(kind, in string) {
	c.enter("lexer", in)
	defer c.leave()
	errs := &errorLog{}
	lex := parser.NewRFC5322Lexer(antlr.NewInputStream(in))
	lex.RemoveErrorListeners()
	lex.AddErrorListener(errs)
	if !c.lexemes(kind, in, lex, errs) {
		return
	}
	c.Nontrivial(in)
	// a token stream holds the same tokens
	if len(in) > 0 && c.rng.Intn(4) == 0 {
		s := antlr.NewCommonTokenStream(parser.NewRFC5322Lexer(antlr.NewInputStream(in)), antlr.TokenDefaultChannel)
		s.Fill()
		toks, runes := s.GetAllTokens(), []rune(in)
		if len(toks) != len(runes)+1 {
			c.Fail(kind, in, fmt.Sprintf("%d tokens and EOF in a stream", len(runes)), fmt.Sprint(len(toks)))
			return
		}
		for i, r := range runes {
			if toks[i].GetTokenIndex() != i || toks[i].GetText() != string(r) {
				c.Fail(kind, in, fmt.Sprintf("token %d of a stream is %q", i, r), fmt.Sprintf("%d: %q", toks[i].GetTokenIndex(), toks[i].GetText()))
				return
			}
		}
		c.Count("streams", 1)
	}
}

// anyText makes a text of characters of all kinds, some of it ill-formed.
func (c *Ctx) anyText(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch c.rng.Intn(9) {
		case 0:
			b.WriteByte(byte(c.rng.Intn(256)))
		case 1:
			b.WriteRune(rune(0x80 + c.rng.Intn(0x10ff80)))
		case 2:
			b.WriteRune(rune(0x80 + c.rng.Intn(0x780)))
		case 3:
			b.WriteString("\r\n")
		case 4:
			b.WriteByte(byte(c.rng.Intn(32)))
		case 5:
			b.WriteString(c.g.Soup(3))
		default:
			b.WriteByte(byte(32 + c.rng.Intn(96)))
		}
	}
	return b.String()
}

func init() {
	const block = 2048
	sections(&Prop{
		ID: "P19",
		Rule: "A text goes through the generated lexer: every token is compared with the class, text, place and line of the character it stands for, up to EOF, and the error listener must stay silent. " +
			"Every Unicode character, every pair of ASCII characters, random and ill-formed text, lists and dates; new lexers, lexers given another input, and lexers reset midway. Non-trivial: a distinct text with its tokens checked.",
		MinNontrivial: fixed(5000),
	},
		section{"every-character", fixed(0x110000 / block), func(c *Ctx, i int) {
			var b strings.Builder
			for r := rune(i * block); r < rune((i+1)*block); r++ {
				b.WriteRune(r) // surrogates turn into U+FFFD
			}
			c.lex("every character", b.String())
			c.Count("characters", block)
		}},
		section{"characters-alone", tiers(1000, 20000), func(c *Ctx, i int) {
			if i < 256 {
				c.lex("alone", string(rune(i)))
				c.lex("alone", string([]byte{byte(i)}))
				c.lex("alone", "a"+string([]byte{byte(i)})+"é")
			}
			for k := 0; k < 40; k++ {
				c.lex("alone", string(rune(c.rng.Intn(0x110000))))
			}
		}},
		section{"pairs", fixed(128), func(c *Ctx, i int) {
			var b strings.Builder
			for k := 0; k < 128; k++ {
				c.lex("pair", string([]byte{byte(i), byte(k)}))
				b.Write([]byte{byte(i), byte(k), byte(k), byte(i)})
			}
			c.lex("pairs", b.String())
		}},
		section{"words", tiers(2000, 30000), func(c *Ctx, i int) {
			v := vocab()
			all := append(v.fresh[:len(v.fresh):len(v.fresh)], v.known...)
			w := all[i%len(all)]
			c.lex("words", w+c.anyText(1)+w)
		}},
		section{"random", tiers(20000, 400000), func(c *Ctx, i int) { c.lex("random", c.anyText(1+c.rng.Intn(60))) }},
		section{"lists-and-dates", tiers(2000, 30000), func(c *Ctx, i int) {
			s, _ := c.g.List(1 + i%4)
			c.lex("list", s)
			s, _ = c.g.Date(i%2 == 0)
			c.lex("date", s)
		}},
		section{"long", tiers(24, 300), func(c *Ctx, i int) {
			c.lex("long", strings.Repeat(c.anyText(40), 100+c.rng.Intn(800)))
			c.lex("long run", strings.Repeat(c.anyText(1), 1+c.rng.Intn(70000)))
		}},
		section{"side-by-side", tiers(1000, 20000), func(c *Ctx, i int) {
			// several lexers at once, asked in turn
			var in []string
			var lex []*parser.RFC5322Lexer
			var got [][]antlr.Token
			errs := &errorLog{}
			for k := 0; k < 3; k++ {
				in = append(in, c.anyText(1+c.rng.Intn(30)))
				l := parser.NewRFC5322Lexer(antlr.NewInputStream(in[k]))
				l.RemoveErrorListeners()
				l.AddErrorListener(errs)
				lex, got = append(lex, l), append(got, nil)
			}
			c.enter("lexer", strings.Join(in, " / "))
			defer c.leave()
			for open := 3; open > 0; {
				k := c.rng.Intn(3)
				if lex[k] == nil {
					continue
				}
				t := lex[k].NextToken()
				if t.GetTokenType() == antlr.TokenEOF {
					lex[k], open = nil, open-1
					continue
				}
				got[k] = append(got[k], t)
			}
			for k, s := range in {
				runes := []rune(s)
				for n := 0; n < len(runes) || n < len(got[k]); n++ {
					if n >= len(runes) || n >= len(got[k]) || got[k][n].GetText() != string(runes[n]) || got[k][n].GetTokenType() != tokenConsts[ref.TokenName(ref.TokenOf(runes[n]))][0] || got[k][n].GetStart() != n {
						c.Fail("side by side", s, fmt.Sprintf("token %d of %d is %q", n, len(runes), string(runes[min(n, len(runes)-1)])), fmt.Sprintf("%d tokens; %v", len(got[k]), got[k][min(n, len(got[k])):min(n+1, len(got[k]))]))
						return
					}
				}
				c.Nontrivial(s)
			}
			if len(errs.msgs) > 0 {
				c.Fail("side by side", strings.Join(in, " / "), "no error", fmt.Sprintf("%q", errs.msgs))
			}
			c.Count("lexers.side.by.side", 3)
		}},
		section{"used-again", tiers(2000, 40000), func(c *Ctx, i int) {
			errs := &errorLog{}
			first := c.anyText(1 + c.rng.Intn(20))
			c.enter("lexer", first)
			defer c.leave()
			lex := parser.NewRFC5322Lexer(antlr.NewInputStream(first))
			lex.RemoveErrorListeners()
			lex.AddErrorListener(errs)
			for k := 0; k < 5; k++ {
				for n := c.rng.Intn(25); n > 0; n-- {
					lex.NextToken()
				}
				s := c.anyText(1 + c.rng.Intn(20))
				lex.SetInputStream(antlr.NewInputStream(s))
				if !c.lexemes("another input", s, lex, errs) {
					return
				}
				c.Count("lexers.used.again", 1)
				c.Nontrivial(s)
			}
		}},
	)
}
