// Package ref is the reference model the monitors compare the library with.
//
// It is independent of the library: grammar.g4 is a frozen copy of the
// published parser grammar, interpreted here by a small chart parser (no ANTLR
// code is involved), and eval.go gives the resulting tree its RFC 5322 / RFC
// 2047 meaning without a walker or a stack.
package ref

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode/utf8"
)

//go:embed grammar.g4
var grammarText string

// ---- tokens ----

// EOF is the terminal that follows the last character.
const EOF = -1

var tokNames []string
var tokIndex = map[string]int{}

func tok(name string) int {
	if i, ok := tokIndex[name]; ok {
		return i
	}
	i := len(tokNames) + 1
	tokIndex[name] = i
	tokNames = append(tokNames, name)
	return i
}

// TokenName returns the grammar's name of a token type.
func TokenName(t int) string {
	if t == EOF {
		return "EOF"
	}
	return tokNames[t-1]
}

var ascii [128]int

func init() {
	names := map[rune]string{
		0: "U_00", '\t': "TAB", '\n': "LF", 0x0b: "U_0B", 0x0c: "U_0C", '\r': "CR", ' ': "SP",
		'!': "Exclamation", '"': "DQuote", '#': "Hash", '$': "Dollar", '%': "Percent", '&': "Ampersand",
		'\'': "SQuote", '(': "LParens", ')': "RParens", '*': "Asterisk", '+': "Plus", ',': "Comma",
		'-': "Minus", '.': "Period", '/': "Slash", ':': "Colon", ';': "Semicolon", '<': "Less",
		'=': "Equal", '>': "Greater", '?': "Question", '@': "At", '[': "LBracket", '\\': "Backslash",
		']': "RBracket", '^': "Caret", '_': "Underscore", '`': "Backtick", '{': "LCurly", '|': "Pipe",
		'}': "RCurly", '~': "Tilde", 0x7f: "Delete",
	}
	for c := rune(0); c < 128; c++ {
		n, ok := names[c]
		switch {
		case ok:
		case c >= 1 && c <= 8:
			n = "U_01_08"
		case c >= 0x0e && c <= 0x1f:
			n = "U_0E_1F"
		case c >= '0' && c <= '9':
			n = "Digit"
		case c >= 'A' && c <= 'Z':
			n = string(c)
		case c >= 'a' && c <= 'z':
			n = strings.ToUpper(string(c))
		default:
			panic(fmt.Sprint("no token for ", c))
		}
		ascii[c] = tok(n)
	}
	tok("UTF8NonAscii")
	loadGrammar()
}

// TokenOf gives the token type of one character.
func TokenOf(r rune) int {
	if r < 128 {
		return ascii[r]
	}
	return tokIndex["UTF8NonAscii"]
}

// ---- grammar ----

type kind int

const (
	kTok kind = iota
	kRef
	kSeq
	kAlt
	kOpt
	kStar
	kPlus
)

type expr struct {
	k    kind
	tok  int
	ref  int
	kids []*expr
	id   int
	tail *expr // kSeq: the sequence without its first element
}

var (
	ruleNames []string
	ruleIndex = map[string]int{}
	ruleBody  []*expr
	nExpr     int
)

// RuleNames lists the grammar's rules in order.
func RuleNames() []string { return ruleNames }

type gp struct {
	toks []string
	pos  int
}

func (g *gp) peek() string { return g.toks[g.pos] }
func (g *gp) next() string { s := g.toks[g.pos]; g.pos++; return s }

func newExpr(k kind, kids ...*expr) *expr {
	e := &expr{k: k, kids: kids, id: nExpr}
	nExpr++
	if k == kSeq && len(kids) > 1 {
		e.tail = newExpr(kSeq, kids[1:]...)
	}
	return e
}

func loadGrammar() {
	var lines []string
	for _, l := range strings.Split(grammarText, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		lines = append(lines, l)
	}
	text := strings.Join(lines, "\n")
	if i := strings.Index(text, "}"); strings.Contains(text[:i+1], "options") {
		text = text[i+1:]
	}
	for _, c := range "|()?*+:;" {
		text = strings.ReplaceAll(text, string(c), " "+string(c)+" ")
	}
	g := &gp{toks: append(strings.Fields(text), "")}
	// first pass: rule names
	for i := 0; i+1 < len(g.toks); i++ {
		if g.toks[i+1] == ":" {
			ruleIndex[g.toks[i]] = len(ruleNames)
			ruleNames = append(ruleNames, g.toks[i])
		}
	}
	ruleBody = make([]*expr, len(ruleNames))
	for g.peek() != "" {
		name := g.next()
		if g.next() != ":" {
			panic("grammar: expected : after " + name)
		}
		ruleBody[ruleIndex[name]] = g.alt()
		if g.next() != ";" {
			panic("grammar: expected ; after " + name)
		}
	}
}

func (g *gp) alt() *expr {
	alts := []*expr{g.seq()}
	for g.peek() == "|" {
		g.next()
		alts = append(alts, g.seq())
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return newExpr(kAlt, alts...)
}

func (g *gp) seq() *expr {
	var items []*expr
	for {
		var e *expr
		switch s := g.peek(); s {
		case "|", ")", ";", "":
			return newExpr(kSeq, items...)
		case "(":
			g.next()
			e = g.alt()
			if g.next() != ")" {
				panic("grammar: )")
			}
		default:
			g.next()
			if s == "EOF" {
				e = newExpr(kTok)
				e.tok = EOF
			} else if s[0] >= 'A' && s[0] <= 'Z' {
				i, ok := tokIndex[s]
				if !ok {
					panic("grammar: token " + s)
				}
				e = newExpr(kTok)
				e.tok = i
			} else {
				i, ok := ruleIndex[s]
				if !ok {
					panic("grammar: rule " + s)
				}
				e = newExpr(kRef)
				e.ref = i
			}
		}
		switch g.peek() {
		case "?":
			g.next()
			e = newExpr(kOpt, e)
		case "*":
			g.next()
			e = newExpr(kStar, e)
		case "+":
			g.next()
			e = newExpr(kPlus, e)
		}
		items = append(items, e)
	}
}

// ---- chart parser ----

// Node is one node of the reference parse tree: a rule application, or a
// terminal (Rule < 0).
type Node struct {
	Rule     int
	Tok      int
	From, To int // rune positions
	Kids     []*Node
	p        *parse
}

// Is reports whether the node applies the named rule.
func (n *Node) Is(rule string) bool { return n.Rule >= 0 && ruleNames[n.Rule] == rule }

// Text is the input the node spans.
func (n *Node) Text() string {
	to := n.To
	if to > len(n.p.in) {
		to = len(n.p.in)
	}
	return string(n.p.in[n.From:to])
}

// res is one way (the first in priority order) to match an expression from a
// position up to end. Matched subtrees hang off it as a binary structure that
// flatten() lists in order.
type res struct {
	end  int
	node *Node // kTok / kRef
	a, b *res
}

func (r *res) flatten(out []*Node) []*Node {
	if r == nil {
		return out
	}
	if r.node != nil {
		return append(out, r.node)
	}
	return r.b.flatten(r.a.flatten(out))
}

type parse struct {
	in     []rune
	toks   []int
	memo   [][][]*res // [expr][pos]
	done   [][]bool
	rmemo  [][][]*res
	rdone  [][]bool
	Budget int
}

// Parse interprets the grammar on the input, starting with the given rule. The
// tree is the first complete derivation in priority order: earlier
// alternatives before later ones, optional and repeated parts as long as
// possible. That is how the grammar's ambiguities are defined to resolve. It
// returns nil if the input is not in the language; ok is false if the work
// budget ran out first.
func Parse(rule string, input string) (n *Node, ok bool) {
	p := newParse(input, 60_000_000)
	defer func() {
		if r := recover(); r != nil {
			if r == errBudget {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for _, r := range p.rule(ruleIndex[rule], 0) {
		if r.end == len(p.toks) {
			r.node.build()
			return r.node, true
		}
	}
	return nil, true
}

var errBudget = new(int)

func newParse(input string, budget int) *parse {
	p := &parse{Budget: budget}
	for i := 0; i < len(input); {
		r, w := utf8.DecodeRuneInString(input[i:])
		p.in = append(p.in, r)
		p.toks = append(p.toks, TokenOf(r))
		i += w
	}
	p.toks = append(p.toks, EOF)
	p.memo = make([][][]*res, nExpr)
	p.done = make([][]bool, nExpr)
	p.rmemo = make([][][]*res, len(ruleNames))
	p.rdone = make([][]bool, len(ruleNames))
	return p
}

// build fills in Kids recursively, only for the nodes of the chosen tree.
func (n *Node) build() {
	if n.Rule < 0 || n.Kids != nil {
		return
	}
	for _, r := range n.p.rmemo[n.Rule][n.From] {
		if r.end == n.To {
			n.Kids = r.a.flatten(nil)
			for _, k := range n.Kids {
				k.build()
			}
			return
		}
	}
	panic("build")
}

func (p *parse) rule(r, i int) []*res {
	if p.rdone[r] == nil {
		p.rdone[r] = make([]bool, len(p.toks)+1)
		p.rmemo[r] = make([][]*res, len(p.toks)+1)
	}
	if p.rdone[r][i] {
		return p.rmemo[r][i]
	}
	var out []*res
	for _, x := range p.expr(ruleBody[r], i) {
		out = append(out, &res{end: x.end, node: &Node{Rule: r, From: i, To: x.end, p: p}, a: x})
	}
	p.rdone[r][i] = true
	p.rmemo[r][i] = out
	return out
}

func (p *parse) spend(n int) {
	p.Budget -= n
	if p.Budget < 0 {
		panic(errBudget)
	}
}

type ends struct {
	seen map[int]bool
	out  []*res
}

func (e *ends) add(r *res) {
	if len(e.out) < 12 && e.seen == nil {
		for _, o := range e.out {
			if o.end == r.end {
				return
			}
		}
		e.out = append(e.out, r)
		return
	}
	if e.seen == nil {
		e.seen = make(map[int]bool, 64)
		for _, o := range e.out {
			e.seen[o.end] = true
		}
	}
	if !e.seen[r.end] {
		e.seen[r.end] = true
		e.out = append(e.out, r)
	}
}

func (p *parse) expr(e *expr, i int) []*res {
	if p.done[e.id] == nil {
		p.done[e.id] = make([]bool, len(p.toks)+1)
		p.memo[e.id] = make([][]*res, len(p.toks)+1)
	}
	if p.done[e.id][i] {
		return p.memo[e.id][i]
	}
	var out ends
	switch e.k {
	case kTok:
		p.spend(1)
		if i < len(p.toks) && p.toks[i] == e.tok {
			out.out = []*res{{end: i + 1, node: &Node{Rule: -1, Tok: e.tok, From: i, To: i + 1, p: p}}}
		}
	case kRef:
		out.out = p.rule(e.ref, i)
	case kSeq:
		switch len(e.kids) {
		case 0:
			out.out = []*res{{end: i}}
		case 1:
			out.out = p.expr(e.kids[0], i)
		default:
			for _, a := range p.expr(e.kids[0], i) {
				for _, b := range p.expr(e.tail, a.end) {
					p.spend(1)
					out.add(&res{end: b.end, a: a, b: b})
				}
			}
		}
	case kAlt:
		for _, k := range e.kids {
			for _, a := range p.expr(k, i) {
				p.spend(1)
				out.add(a)
			}
		}
	case kOpt:
		for _, a := range p.expr(e.kids[0], i) {
			out.add(a)
		}
		out.add(&res{end: i})
	case kStar, kPlus:
		// item then as many more as possible; e+ at i needs one, e* may stop.
		for _, a := range p.expr(e.kids[0], i) {
			if a.end == i {
				continue
			}
			for _, b := range p.expr(e, a.end) {
				p.spend(1)
				out.add(&res{end: b.end, a: a, b: b})
			}
			if e.k == kPlus {
				out.add(a)
			}
		}
		if e.k == kStar {
			out.add(&res{end: i})
		}
	}
	p.done[e.id][i] = true
	p.memo[e.id][i] = out.out
	return out.out
}
