package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"vharness/ref"
)

// section is a run of cases of one kind.
type section struct {
	name string
	n    func(thorough bool) int
	run  func(c *Ctx, i int)
}

// fixed is a section of the same size in both tiers.
func fixed(n int) func(bool) int { return func(bool) int { return n } }

// tiers gives the sizes for quick and thorough.
func tiers(q, t int) func(bool) int {
	return func(th bool) int {
		if th {
			return t
		}
		return q
	}
}

// sections makes a property's case list out of sections.
func sections(p *Prop, secs ...section) {
	if only := os.Getenv("VERIF_SECTION"); only != "" { // while developing; the counts are too low then
		var some []section
		for _, s := range secs {
			if s.name == only {
				some = append(some, s)
			}
		}
		secs = some
	}
	p.Cases = func(t bool) int {
		n := 0
		for _, s := range secs {
			n += s.n(t)
		}
		return n
	}
	p.Run = func(c *Ctx, i int) {
		for _, s := range secs {
			n := s.n(c.thorough)
			if i < n {
				c.Count("cases."+s.name, 1)
				s.run(c, i)
				return
			}
			i -= n
		}
	}
	register(p)
}

// sweepSizes are the lengths systematic sweeps go through: every small one, and
// the neighbourhoods of the limits people put into code.
func sweepSizes(dense int, max int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := 0; n <= dense; n++ {
		add(n)
	}
	for _, n := range []int{63, 64, 65, 72, 73, 75, 76, 77, 78, 79, 99, 100, 101, 127, 128, 129, 199, 200, 201, 253, 254, 255, 256, 257, 299, 320, 321, 499, 500, 511, 512, 513, 600, 800, 996, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097} {
		add(n)
	}
	for _, n := range mined().sizes {
		for d := -1; d <= 2; d++ {
			add(n + d)
		}
	}
	sort.Ints(out)
	return out
}

type minedT struct {
	words []string
	sizes []int
	ints  []int64 // all numbers
}

var (
	minedOnce sync.Once
	minedVal  minedT
)

// mined collects string and integer literals of the source under test, the way
// fuzzers build their dictionaries. It only steers workloads towards inputs the
// code treats specially; no verdict depends on it.
func mined() minedT {
	minedOnce.Do(func() {
		words, sizes, ints := map[string]bool{}, map[int]bool{}, map[int64]bool{}
		root := env("VERIF_REPO", "/repo")
		filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() && strings.HasPrefix(info.Name(), ".") && path != root {
				if err == nil {
					return filepath.SkipDir
				}
				return nil
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.ParseComments)
			if err != nil {
				return nil
			}
			generated := strings.Contains(string(src[:min(len(src), 400)]), "Code generated")
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.CompositeLit:
					if len(n.Elts) > 100 || generated {
						return false
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.STRING, token.CHAR:
						s := n.Value
						if n.Kind == token.CHAR {
							r, _, _, err := strconv.UnquoteChar(s[1:], '\'')
							if err != nil {
								return true
							}
							s = string(r)
						} else if u, err := strconv.Unquote(s); err == nil {
							s = u
						}
						if len(s) > 0 && len(s) <= 24 && utf8.ValidString(s) && !generated {
							words[s] = true
						}
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && !generated {
							ints[v] = true
							if v >= 2 && v <= 2000 {
								sizes[int(v)] = true
							}
						}
					}
				}
				return true
			})
			return nil
		})
		for w := range words {
			minedVal.words = append(minedVal.words, w)
		}
		for n := range sizes {
			minedVal.sizes = append(minedVal.sizes, n)
		}
		for n := range ints {
			minedVal.ints = append(minedVal.ints, n)
		}
		sort.Strings(minedVal.words)
		slices.Sort(minedVal.ints)
		sort.Ints(minedVal.sizes)
		if len(minedVal.words) > 400 {
			minedVal.words = minedVal.words[:400]
		}
	})
	return minedVal
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// one is a list of one mailbox.
func one(name, addr string) []ref.Addr { return []ref.Addr{{Name: name, Address: addr}} }

// rep is a word of n letters that is easy to recognise.
func rep(n int) string {
	const s = "abcdefghijklmnopqrstuvwxyz"
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(s[i%26])
	}
	return b.String()
}

// deBruijn is a sequence that contains every ordered pair of the alphabet's
// characters, cut into pieces of the given length that overlap by one.
func deBruijn(alphabet []rune, piece int) []string {
	k := len(alphabet)
	// Eulerian walk over the complete digraph with loops.
	next := make([]int, k)
	var path []int
	stack := []int{0}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		if next[v] < k {
			stack = append(stack, next[v])
			next[v]++
		} else {
			path = append(path, v)
			stack = stack[:len(stack)-1]
		}
	}
	var out []string
	for i := 0; i+1 < len(path); i += piece - 1 {
		j := min(i+piece, len(path))
		var b strings.Builder
		for _, v := range path[i:j] {
			b.WriteRune(alphabet[v])
		}
		out = append(out, b.String())
	}
	return out
}

// years are the years "now" may be, for two-digit years.
func years() []int {
	n := time.Now()
	return []int{n.Year(), n.UTC().Year(), n.Add(-time.Hour).Year()}
}

// CheckDate compares a time with the model; both readings of "now" around the
// call are allowed.
func checkDate(d ref.Date, t time.Time, now []int) string {
	s := ""
	for _, y := range now {
		if s = d.Check(t, y, y); s == "" {
			return ""
		}
	}
	return s
}

// ExpectDate monitors one call: the input must be accepted and denote d.
func (c *Ctx) ExpectDate(kind, input string, d ref.Date) bool {
	now := years()
	r := c.Date(input)
	now = append(now, years()...)
	if r.Panic != nil || r.Err != nil {
		if c.ConstructDate(input, d) {
			c.Fail(kind, input, dateWant(d), r.dateString())
		}
		return false
	}
	if s := checkDate(d, r.Time, now); s != "" {
		if c.ConstructDate(input, d) {
			c.Fail(kind, input, dateWant(d), r.dateString()+": "+s)
		}
		return false
	}
	return true
}

func dateWant(d ref.Date) string {
	y := strconv.Itoa(d.Year)
	if d.TwoDigit {
		y = "two-digit " + y
	}
	return "year " + y + " month " + strconv.Itoa(d.Month) + " day " + strconv.Itoa(d.Day) + " " +
		strconv.Itoa(d.Hour) + ":" + strconv.Itoa(d.Min) + ":" + strconv.Itoa(d.Sec) + " offset " + strconv.Itoa(d.Offset) + "s zone " + strconv.Quote(d.Zone)
}

// AgreeDate monitors one call against the model.
func (c *Ctx) AgreeDate(kind, input string) (accepted, decided bool) {
	if input == "" {
		r := c.Date(input)
		if r.Panic != nil || r.Err != nil || !r.Time.IsZero() {
			c.Fail(kind, input, "the zero time", r.dateString())
		}
		return true, true
	}
	n, decided := ref.Parse("dateTime", input)
	if !decided {
		c.Count("model.gaveup", 1)
		return false, false
	}
	if n == nil {
		c.Count("model.reject", 1)
		r := c.Date(input)
		if r.Panic != nil || r.Err == nil {
			c.Fail(kind, input, "an error: the input is not in the language", r.dateString())
		} else if !r.Time.IsZero() {
			c.Fail(kind, input, "no time next to the error", r.Time.String())
		}
		return false, true
	}
	c.Count("model.accept", 1)
	n.CountRules(c.st.Rules)
	c.ExpectDate(kind, input, ref.EvalDateTime(n))
	return true, true
}

// ConstructDate checks the generator against the model.
func (c *Ctx) ConstructDate(input string, d ref.Date) bool {
	m, ok, decided := ref.DateTime(input)
	if !decided {
		return true
	}
	if !ok || m != d {
		c.Broken("construction and model differ on %q: built %s, model accepts=%v %s", input, dateWant(d), ok, dateWant(m))
		return false
	}
	c.Count("construction.confirmed", 1)
	return true
}
