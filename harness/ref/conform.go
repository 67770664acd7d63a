package ref

// Sym is a child of a tree node: a rule or, if Rule is empty, a terminal.
type Sym struct{ Rule, Token string }

// Conforms reports whether a node of the named rule may have these children, in
// this order, according to the grammar.
func Conforms(rule string, kids []Sym) bool {
	i, ok := ruleIndex[rule]
	if !ok {
		return false
	}
	memo := map[[2]int]map[int]bool{}
	var match func(e *expr, at int) map[int]bool
	match = func(e *expr, at int) map[int]bool {
		key := [2]int{e.id, at}
		if m, ok := memo[key]; ok {
			return m
		}
		out := map[int]bool{}
		memo[key] = out
		switch e.k {
		case kTok:
			if at < len(kids) && kids[at].Rule == "" && kids[at].Token == TokenName(e.tok) {
				out[at+1] = true
			}
		case kRef:
			if at < len(kids) && kids[at].Rule == ruleNames[e.ref] {
				out[at+1] = true
			}
		case kSeq:
			cur := map[int]bool{at: true}
			for _, k := range e.kids {
				next := map[int]bool{}
				for p := range cur {
					for q := range match(k, p) {
						next[q] = true
					}
				}
				cur = next
			}
			for p := range cur {
				out[p] = true
			}
		case kAlt:
			for _, k := range e.kids {
				for p := range match(k, at) {
					out[p] = true
				}
			}
		case kOpt, kStar, kPlus:
			if e.k != kPlus {
				out[at] = true
			}
			todo := []int{at}
			for len(todo) > 0 {
				p := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				for q := range match(e.kids[0], p) {
					if q > p && !out[q] {
						out[q] = true
						if e.k != kOpt {
							todo = append(todo, q)
						}
					}
				}
				if e.k == kPlus && p == at && match(e.kids[0], p)[at] {
					out[at] = true
				}
			}
		}
		return out
	}
	return match(ruleBody[i], 0)[len(kids)]
}

// RuleName names the rule of a node.
func (n *Node) RuleName() string { return ruleNames[n.Rule] }

// Walk visits the node and everything below it.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}
