package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/ProtonMail/go-rfc5322/parser"
	"github.com/antlr/antlr4/runtime/Go/antlr"

	"vharness/ref"
)

// tevent is one callback of a walk over a parse tree.
type tevent struct {
	kind string // every+, typed+, typed-, every-, leaf, error
	rule string
	ctx  antlr.Tree
}

// listener records all callbacks.
type listener struct {
	parser.BaseRFC5322ParserListener
	log  []tevent
	bad  string
	rule func(antlr.RuleContext) string
}

func (l *listener) typed(rule string, enter bool, x antlr.ParserRuleContext) {
	l.log = append(l.log, tevent{map[bool]string{true: "typed+", false: "typed-"}[enter], rule, x})
}

func (l *listener) EnterEveryRule(x antlr.ParserRuleContext) {
	l.log = append(l.log, tevent{"every+", l.rule(x), x})
}

func (l *listener) ExitEveryRule(x antlr.ParserRuleContext) {
	l.log = append(l.log, tevent{"every-", l.rule(x), x})
}

func (l *listener) VisitTerminal(n antlr.TerminalNode) {
	l.log = append(l.log, tevent{"leaf", n.GetText(), n})
}

func (l *listener) VisitErrorNode(n antlr.ErrorNode) {
	l.log = append(l.log, tevent{"error", n.GetText(), n})
}

type errorLog struct {
	antlr.DefaultErrorListener
	msgs []string
}

func (e *errorLog) SyntaxError(_ antlr.Recognizer, _ interface{}, line, col int, msg string, _ antlr.RecognitionException) {
	e.msgs = append(e.msgs, fmt.Sprintf("%d:%d %s", line, col, msg))
}

// tree is what the parser package made of an input.
type treeRes struct {
	p      *parser.RFC5322Parser
	root   antlr.ParserRuleContext
	errors []string
	panic  any
}

func (c *Ctx) buildTree(rule, in string) (t treeRes) {
	c.enter("parser."+rule, in)
	defer c.leave()
	defer func() {
		if p := recover(); p != nil {
			t.panic = p
		}
	}()
	lex := parser.NewRFC5322Lexer(antlr.NewInputStream(in))
	errs := &errorLog{}
	lex.RemoveErrorListeners()
	lex.AddErrorListener(errs)
	t.p = parser.NewRFC5322Parser(antlr.NewCommonTokenStream(lex, antlr.TokenDefaultChannel))
	t.p.RemoveErrorListeners()
	t.p.AddErrorListener(errs)
	t.root = start[rule](t.p).(antlr.ParserRuleContext)
	t.errors = errs.msgs
	return t
}

func (t *treeRes) ruleName(x antlr.RuleContext) string {
	i := x.GetRuleIndex()
	if i < 0 || i >= len(t.p.RuleNames) {
		return fmt.Sprint("rule ", i)
	}
	return t.p.RuleNames[i]
}

func (t *treeRes) tokenName(k int) string {
	if k == antlr.TokenEOF {
		return "EOF"
	}
	if k < 0 || k >= len(t.p.SymbolicNames) {
		return fmt.Sprint("token ", k)
	}
	return t.p.SymbolicNames[k]
}

// checkTree monitors the tree of an input that was parsed without an error:
// every node is an application of its rule, the leaves are the characters in
// order, positions and parents are right, and the typed accessors agree with
// the children.
func (c *Ctx) checkTree(kind, rule, in string, t *treeRes, whole bool) bool {
	bad := ""
	fail := func(format string, args ...any) {
		if bad == "" {
			bad = fmt.Sprintf(format, args...)
		}
	}
	runes := []rune(in)
	at := 0 // the next character a leaf has to cover
	nodes := 0
	var visit func(n antlr.ParserRuleContext)
	visit = func(n antlr.ParserRuleContext) {
		nodes++
		name := t.ruleName(n)
		c.st.Rules[name]++
		from := at
		var kids []ref.Sym
		for _, k := range n.GetChildren() {
			switch k := k.(type) {
			case antlr.TerminalNode:
				s := k.GetSymbol()
				tn := t.tokenName(s.GetTokenType())
				kids = append(kids, ref.Sym{Token: tn})
				if s.GetTokenType() == antlr.TokenEOF {
					if at != len(runes) {
						fail("EOF after %d of %d characters", at, len(runes))
					}
					continue
				}
				if at >= len(runes) {
					fail("a leaf %q past the end of the input", k.GetText())
					return
				}
				if k.GetText() != string(runes[at]) || s.GetStart() != at || s.GetStop() != at || s.GetTokenIndex() != at {
					fail("leaf %d is %q at %d..%d, token %d; the input has %q there", at, k.GetText(), s.GetStart(), s.GetStop(), s.GetTokenIndex(), runes[at])
				}
				if want := ref.TokenName(ref.TokenOf(runes[at])); tn != want {
					fail("character %q is a %s token, not %s", runes[at], tn, want)
				}
				at++
			case antlr.ParserRuleContext:
				if k.GetParent() != antlr.Tree(n) {
					fail("a child of %s has another parent", name)
				}
				kids = append(kids, ref.Sym{Rule: t.ruleName(k)})
				visit(k)
			default:
				fail("unexpected child %T of %s", k, name)
			}
		}
		if bad != "" {
			return
		}
		if !ref.Conforms(name, kids) {
			fail("rule %s does not derive %v", name, kids)
		}
		if n.GetText() != string(runes[from:at]) && n.GetText() != string(runes[from:at])+"<EOF>" {
			fail("the text of %s is %q, its leaves are %q", name, n.GetText(), string(runes[from:at]))
		}
		if at > from {
			if n.GetStart() == nil || n.GetStart().GetTokenIndex() != from {
				fail("%s starts at %v, its first leaf is %d", name, n.GetStart(), from)
			}
			// (the stop token of a node that ends in EOF is the token before it)
			if n.GetStop() == nil || n.GetStop().GetTokenIndex() != at-1 {
				fail("%s stops at %v, its last character is %d", name, n.GetStop(), at-1)
			}
		}
		if s := t.accessors(n); s != "" {
			fail("%s", s)
		}
	}
	visit(t.root)
	if bad == "" && whole && at != len(runes) {
		fail("the tree covers %d of %d characters", at, len(runes))
	}
	if bad != "" {
		c.Fail(kind, in, "a tree of rule "+rule+" that follows the grammar and covers the input", bad)
		return false
	}
	c.Count("tree.nodes", nodes)
	return true
}

// accessors compares the typed accessors of a node with its children.
func (t *treeRes) accessors(n antlr.ParserRuleContext) string {
	v := reflect.ValueOf(n)
	kids := map[string][]antlr.Tree{}
	for _, k := range n.GetChildren() {
		switch k := k.(type) {
		case antlr.TerminalNode:
			s := t.tokenName(k.GetSymbol().GetTokenType())
			kids[s] = append(kids[s], k)
		case antlr.ParserRuleContext:
			s := t.ruleName(k)
			s = strings.ToUpper(s[:1]) + s[1:]
			kids[s] = append(kids[s], k)
		}
	}
	same := func(v reflect.Value, want antlr.Tree) bool {
		if v.Kind() != reflect.Interface && v.Kind() != reflect.Pointer {
			return true
		}
		if v.IsNil() {
			return want == nil
		}
		return v.Interface() == any(want)
	}
	// the accessors of children the node does not have
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		name := strings.TrimPrefix(m.Name, "All")
		if len(kids[name]) > 0 || !t.isSymbol(name) || m.Type.NumOut() != 1 {
			continue
		}
		switch {
		case m.Name != name:
			if m.Type.NumIn() == 1 && m.Type.Out(0).Kind() == reflect.Slice && v.Method(i).Call(nil)[0].Len() != 0 {
				return fmt.Sprintf("%T.%s() is not empty, the node has no such child", n, m.Name)
			}
		case m.Type.NumIn() == 1:
			if !same(v.Method(i).Call(nil)[0], nil) {
				return fmt.Sprintf("%T.%s() is not nil, the node has no such child", n, name)
			}
		case m.Type.NumIn() == 2 && m.Type.In(1).Kind() == reflect.Int:
			if !same(v.Method(i).Call([]reflect.Value{reflect.ValueOf(0)})[0], nil) {
				return fmt.Sprintf("%T.%s(0) is not nil, the node has no such child", n, name)
			}
		}
	}
	for name, ks := range kids {
		if m := v.MethodByName("All" + name); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 && m.Type().Out(0).Kind() == reflect.Slice {
			s := m.Call(nil)[0]
			if s.Len() != len(ks) {
				return fmt.Sprintf("%T.All%s() has %d entries, the node has %d such children", n, name, s.Len(), len(ks))
			}
			for i := range ks {
				if !same(s.Index(i), ks[i]) {
					return fmt.Sprintf("%T.All%s()[%d] is another child", n, name, i)
				}
			}
		}
		m := v.MethodByName(name)
		if !m.IsValid() || m.Type().NumOut() != 1 {
			continue
		}
		switch m.Type().NumIn() {
		case 0:
			if !same(m.Call(nil)[0], ks[0]) {
				return fmt.Sprintf("%T.%s() is not the child of that name", n, name)
			}
		case 1:
			if m.Type().In(0).Kind() != reflect.Int {
				continue
			}
			for i := range ks {
				if !same(m.Call([]reflect.Value{reflect.ValueOf(i)})[0], ks[i]) {
					return fmt.Sprintf("%T.%s(%d) is another child", n, name, i)
				}
			}
			if !same(m.Call([]reflect.Value{reflect.ValueOf(len(ks))})[0], nil) {
				return fmt.Sprintf("%T.%s(%d) is not nil", n, name, len(ks))
			}
		}
	}
	return ""
}

// isSymbol tells whether an accessor of this name would be one for a rule or a token.
func (t *treeRes) isSymbol(name string) bool {
	if name == "" {
		return false
	}
	if name == "EOF" || slices.Contains(t.p.SymbolicNames, name) {
		return true
	}
	return slices.Contains(t.p.RuleNames, strings.ToLower(name[:1])+name[1:])
}

// checkWalk monitors the trace of callbacks: each node is entered once, then
// its children are visited in order, then it is left, and the typed callbacks
// belong to the node's rule.
func (c *Ctx) checkWalk(kind, in string, t *treeRes) {
	l := &listener{rule: t.ruleName}
	antlr.ParseTreeWalkerDefault.Walk(l, t.root)
	var want []tevent
	var plan func(n antlr.Tree)
	plan = func(n antlr.Tree) {
		switch x := n.(type) {
		case antlr.ErrorNode:
			want = append(want, tevent{"error", x.GetText(), x})
		case antlr.TerminalNode:
			want = append(want, tevent{"leaf", x.GetText(), x})
		case antlr.ParserRuleContext:
			r := t.ruleName(x)
			want = append(want, tevent{"every+", r, x}, tevent{"typed+", r, x})
			for _, k := range x.GetChildren() {
				plan(k)
			}
			want = append(want, tevent{"typed-", r, x}, tevent{"every-", r, x})
		}
	}
	plan(t.root)
	for i := 0; i < len(want) || i < len(l.log); i++ {
		if i >= len(want) || i >= len(l.log) || want[i] != l.log[i] {
			at := func(s []tevent) string {
				if i < len(s) {
					return fmt.Sprintf("event %d is %s %s", i, s[i].kind, s[i].rule)
				}
				return fmt.Sprintf("%d events", len(s))
			}
			c.Fail(kind+": walk", in, at(want), at(l.log))
			return
		}
	}
	c.Count("walk.events", len(l.log))
}

func shape(t *treeRes, n antlr.Tree) string {
	switch x := n.(type) {
	case antlr.TerminalNode:
		if x.GetSymbol().GetTokenType() == antlr.TokenEOF {
			return ""
		}
		return x.GetText()
	case antlr.ParserRuleContext:
		var b strings.Builder
		b.WriteString("{" + t.ruleName(x) + " ")
		for _, k := range x.GetChildren() {
			b.WriteString(shape(t, k))
		}
		return b.String() + "}"
	}
	return "?"
}

func refShape(n *ref.Node) string {
	if n.Rule < 0 {
		return n.Text()
	}
	var b strings.Builder
	b.WriteString("{" + n.RuleName() + " ")
	for _, k := range n.Kids {
		b.WriteString(refShape(k))
	}
	return b.String() + "}"
}

// tree monitors one input given to one of the two start rules.
func (c *Ctx) tree(kind, rule, in string) {
	if in == "" {
		return
	}
	want, decided := ref.Parse(rule, in)
	if !decided {
		c.Count("model.gaveup", 1)
		return
	}
	t := c.buildTree(rule, in)
	if t.panic != nil {
		c.Fail(kind, in, "no panic", fmt.Sprint(t.panic))
		return
	}
	if (want != nil) != (len(t.errors) == 0) {
		c.Fail(kind, in, fmt.Sprintf("accepted: %v", want != nil), fmt.Sprintf("errors %q", t.errors))
		return
	}
	c.checkWalk(kind, in, &t)
	if want == nil {
		c.Count("refused", 1)
		return
	}
	if !c.checkTree(kind, rule, in, &t, true) {
		return
	}
	c.Count("accepted", 1)
	c.Nontrivial(rule + in)
	s := shape(&t, t.root)
	if w := refShape(want); s != w {
		c.Fail(kind+": derivation", in, w, s)
		return
	}
	c.Count("tree.same.as.model", 1)
	c.Sample("%s", s)
}

// part monitors a piece of an accepted input given to the rule it came from.
func (c *Ctx) part(kind, rule, in string) {
	t := c.buildTree(rule, in)
	if t.panic != nil {
		c.Fail(kind, in, "no panic", fmt.Sprint(t.panic))
		return
	}
	c.checkWalk(kind, in, &t)
	if len(t.errors) > 0 {
		c.Count("part.errors", 1)
		return
	}
	if c.checkTree(kind, rule, in, &t, false) {
		c.Count("parts", 1)
		c.Nontrivial(rule + in)
	}
}

func init() {
	sections(&Prop{
		ID: "P17",
		Rule: "An input goes through the generated parser package itself. The tree of an accepted input is checked node by node: children follow the frozen grammar, leaves are the characters in order with their token types and positions, " +
			"parents, texts and typed accessors agree (also for absent children), and the whole tree is the one the model derives. The callbacks of a full walk are recorded and compared with the tree. Pieces of accepted inputs are given to the rules they came from. Non-trivial: a distinct accepted input or piece.",
		MinNontrivial: fixed(1500),
	},
		section{"lists", tiers(2000, 9000), func(c *Ctx, i int) {
			c.g.Plain = i%3 == 0
			s, _ := c.g.List(1 + i%3)
			if len(s) > 250 {
				s, _ = c.g.Mailbox()
			}
			c.tree("lists", "addressList", s)
		}},
		section{"many-children", fixed(len(workFamilies)), func(c *Ctx, i int) {
			f := workFamilies[i]
			for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 128, 257} {
				s := f.make(n)
				if n > 2 && len(s) > 150 && !(n > 9 && c.thorough && len(s) < 700) {
					continue
				}
				rule := "addressList"
				if f.date {
					rule = "dateTime"
				}
				c.tree("many-children", rule, s)
			}
		}},
		section{"dates", tiers(2000, 9000), func(c *Ctx, i int) {
			s, _ := c.g.Date(i%2 == 0)
			c.tree("dates", "dateTime", s)
		}},
		section{"soup", tiers(6000, 30000), func(c *Ctx, i int) {
			c.tree("soup", "addressList", c.g.Soup(8))
			c.tree("soup", "dateTime", c.g.DateSoup(8))
		}},
		section{"damaged", tiers(1500, 6000), func(c *Ctx, i int) {
			s, _ := c.g.Mailbox()
			if len(s) > 150 {
				s = "\"a\" =?utf-8?q?x?= <a.b@c>"
			}
			c.tree("damaged", "addressList", c.g.Mutate(s))
			d, _ := c.g.Date(false)
			c.tree("damaged", "dateTime", c.g.MutateDate(d))
		}},
		section{"characters", fixed(256), func(c *Ctx, i int) {
			for _, s := range []string{"a@[" + string(rune(i)) + "]", "\"\\" + string(rune(i)) + "\"@b", "\"" + string(rune(i)) + "\"<a@b>", "(" + string(rune(i)) + ")" + string(rune(i)) + "@b", "=?u?q?" + string(rune(i)) + "?= <a@b>"} {
				c.tree("characters", "addressList", s)
			}
			c.tree("characters", "dateTime", "1 Jan 2001 00:00 GMT("+string(rune(i))+")")
		}},
		section{"parts", tiers(700, 3000), func(c *Ctx, i int) {
			rule, s := "addressList", ""
			if i%3 == 0 {
				rule = "dateTime"
				s, _ = c.g.Date(true)
			} else {
				s, _ = c.g.List(1)
			}
			if len(s) > 150 {
				return
			}
			n, _ := ref.Parse(rule, s)
			if n == nil {
				return
			}
			var all []*ref.Node
			n.Walk(func(k *ref.Node) {
				if k.Rule >= 0 && k.Text() != "" {
					all = append(all, k)
				}
			})
			seen := map[string]bool{}
			for k := 0; k < 12; k++ {
				x := all[c.rng.Intn(len(all))]
				if seen[x.RuleName()] {
					continue
				}
				seen[x.RuleName()] = true
				c.part("parts", x.RuleName(), x.Text())
			}
		}},
	)
}
