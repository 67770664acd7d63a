package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net/mail"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"vharness/gen"
	"vharness/ref"
)

// Prop is one property: a fixed, seed-determined list of cases and the monitor
// that judges each of them.
type Prop struct {
	ID    string
	Rule  string // how cases are made and when one counts as non-trivial
	Cases func(thorough bool) int
	Run   func(c *Ctx, i int)
	// Finish, if set, is a last judgement over everything a worker saw.
	Finish  func(c *Ctx)
	Race    bool // runs in the race-detector build
	Workers int  // 0: one per CPU
	Assume  []string
	// MinNontrivial is how much a run must have observed to count as an answer.
	MinNontrivial func(thorough bool) int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is what a replay file holds.
type Violation struct {
	Property string   `json:"property"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Input    string   `json:"input"` // Go-quoted
	Inputs   []string `json:"inputs,omitempty"`
	Want     string   `json:"want"`
	Got      string   `json:"got"`
}

// Stats is what a worker observed.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Counters    map[string]int `json:"counters"`
	Rules       map[string]int `json:"rules"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Broken      []string       `json:"broken"` // the harness contradicts itself
	CPU         float64        `json:"cpu"`
}

// Ctx is a worker's state.
type Ctx struct {
	p        *Prop
	seed     int64
	thorough bool
	rng      *rand.Rand
	g        *gen.G
	st       Stats
	nt       map[uint64]bool
	caseNo   int
	journal  *os.File
	quiet    *os.File // where the library's stdout/stderr go

	mu        sync.Mutex
	curInput  string
	inCall    atomic.Int64 // 0, or the number of the call being monitored
	callCPU   atomic.Int64
	calls     int64
	cpuLimit  atomic.Int64 // seconds
	stopAfter int
}

func (c *Ctx) tier() string {
	if c.thorough {
		return "thorough"
	}
	return "quick"
}

func mix(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return int64(h.Sum64())
}

func (c *Ctx) begin(i int) {
	c.caseNo = i
	c.rng = rand.New(rand.NewSource(mix(c.seed, c.p.ID, i)))
	c.g = gen.New(c.rng)
	c.g.Dict, c.g.Sizes = mined().words, mined().sizes
	rfc5322.CharsetReader = nil
}

func (c *Ctx) end() {
	for k, v := range c.g.Feat {
		c.st.Counters["gen."+k] += v
	}
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int) { c.st.Counters[name] += n }

// Nontrivial records a distinct non-trivial case.
func (c *Ctx) Nontrivial(key string) {
	h := fnv.New64a()
	io.WriteString(h, key)
	c.nt[h.Sum64()] = true
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(format string, args ...any) {
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

// Fail reports a violation.
func (c *Ctx) Fail(kind, input, want, got string, inputs ...string) {
	clip := func(s string, n int) string {
		if len(s) > n {
			return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		return s
	}
	for i := range inputs {
		inputs[i] = clip(fmt.Sprintf("%q", inputs[i]), 20000)
	}
	c.st.Violations = append(c.st.Violations, Violation{
		Property: c.p.ID, Case: c.caseNo, Seed: c.seed, Tier: c.tier(), Kind: kind,
		Input: clip(fmt.Sprintf("%q", input), 200000), Inputs: inputs, Want: clip(want, 20000), Got: clip(got, 20000),
	})
}

// Broken reports that the harness contradicts itself: no verdict.
func (c *Ctx) Broken(format string, args ...any) {
	if len(c.st.Broken) < 10 {
		c.st.Broken = append(c.st.Broken, fmt.Sprintf("case %d: ", c.caseNo)+fmt.Sprintf(format, args...))
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	t := func(v syscall.Timeval) float64 { return float64(v.Sec) + float64(v.Usec)/1e6 }
	return t(ru.Utime) + t(ru.Stime)
}

// ---- the monitored calls ----

// Res is what one call did.
type Res struct {
	Addrs []*mail.Address
	Time  time.Time
	Err   error
	Panic any
}

func (c *Ctx) enter(op, input string) {
	c.mu.Lock()
	c.curInput = input
	c.mu.Unlock()
	if c.journal != nil {
		b, _ := json.Marshal(map[string]any{"case": c.caseNo, "op": op, "input": fmt.Sprintf("%q", input)})
		c.journal.Truncate(0)
		c.journal.WriteAt(b, 0)
	}
	c.calls++
	c.callCPU.Store(int64(cpuSeconds() * 1000))
	c.inCall.Store(c.calls)
	c.st.Evaluations++
}

func (c *Ctx) leave() { c.inCall.Store(0) }

// Addr calls ParseAddressList under the monitors.
func (c *Ctx) Addr(input string) (r Res) {
	c.enter("ParseAddressList", input)
	defer c.leave()
	defer func() {
		if p := recover(); p != nil {
			r.Panic = p
			c.Count("panics", 1)
		}
	}()
	r.Addrs, r.Err = rfc5322.ParseAddressList(input)
	return r
}

// Date calls ParseDateTime under the monitors.
func (c *Ctx) Date(input string) (r Res) {
	c.enter("ParseDateTime", input)
	defer c.leave()
	defer func() {
		if p := recover(); p != nil {
			r.Panic = p
			c.Count("panics", 1)
		}
	}()
	r.Time, r.Err = rfc5322.ParseDateTime(input)
	return r
}

func fmtAddrs(as []*mail.Address) string {
	var b strings.Builder
	for i, a := range as {
		if i > 0 {
			b.WriteString(", ")
		}
		if a == nil {
			b.WriteString("nil")
		} else {
			fmt.Fprintf(&b, "{%q %q}", a.Name, a.Address)
		}
	}
	return "[" + b.String() + "]"
}

func fmtWant(as []ref.Addr) string {
	var b strings.Builder
	for i, a := range as {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "{%q %q}", a.Name, a.Address)
	}
	return "[" + b.String() + "]"
}

func (r Res) addrString() string {
	if r.Panic != nil {
		return fmt.Sprintf("panic: %v", r.Panic)
	}
	if r.Err != nil {
		return fmt.Sprintf("%s, error %q", fmtAddrs(r.Addrs), r.Err)
	}
	return fmtAddrs(r.Addrs)
}

func (r Res) dateString() string {
	if r.Panic != nil {
		return fmt.Sprintf("panic: %v", r.Panic)
	}
	if r.Err != nil {
		return fmt.Sprintf("error %q", r.Err)
	}
	return r.Time.Format("2006-01-02T15:04:05.999999999-07:00:00 MST")
}

func sameAddrs(got []*mail.Address, want []ref.Addr) bool {
	if len(got) != len(want) {
		return false
	}
	for i, a := range got {
		if a == nil || a.Name != want[i].Name || a.Address != want[i].Address {
			return false
		}
	}
	return true
}

func toWant(got []*mail.Address) (out []ref.Addr) {
	for _, a := range got {
		out = append(out, ref.Addr{Name: a.Name, Address: a.Address})
	}
	return out
}

// ExpectAddrs monitors one call: the input must be accepted and give exactly
// these mailboxes in this order.
func (c *Ctx) ExpectAddrs(kind, input string, want []ref.Addr) bool {
	r := c.Addr(input)
	if r.Panic != nil || r.Err != nil || !sameAddrs(r.Addrs, want) {
		if c.confirmed(input, want) {
			c.Fail(kind, input, fmtWant(want), r.addrString())
		}
		return false
	}
	return true
}

// confirmed asks the model about a constructed input before it is held
// against the library.
func (c *Ctx) confirmed(input string, want []ref.Addr) bool {
	m, ok, decided := c.Model(input, nil)
	if decided && (!ok || (rfc5322.CharsetReader == nil || !strings.Contains(input, "=?")) && fmtWant(m) != fmtWant(want)) {
		c.Broken("construction and model differ on %q: built %s, model accepts=%v %s", input, fmtWant(want), ok, fmtWant(m))
		return false
	}
	return true
}

// Model asks the reference model; decided false means it gave up.
func (c *Ctx) Model(input string, cr ref.CharsetReader) (want []ref.Addr, ok, decided bool) {
	if input == "" {
		return nil, true, true
	}
	n, decided := ref.Parse("addressList", input)
	if !decided {
		c.Count("model.gaveup", 1)
		return nil, false, false
	}
	if n == nil {
		c.Count("model.reject", 1)
		return nil, false, true
	}
	c.Count("model.accept", 1)
	n.CountRules(c.st.Rules)
	return ref.EvalAddressList(n, cr), true, true
}

// AgreeAddrs monitors one call against the model: same verdict, same value.
func (c *Ctx) AgreeAddrs(kind, input string, cr ref.CharsetReader) (accepted, decided bool) {
	want, ok, decided := c.Model(input, cr)
	if !decided {
		return false, false
	}
	r := c.Addr(input)
	switch {
	case r.Panic != nil:
		c.Fail(kind, input, map[bool]string{true: fmtWant(want), false: "an error"}[ok], r.addrString())
	case ok && (r.Err != nil || !sameAddrs(r.Addrs, want)):
		c.Fail(kind, input, fmtWant(want), r.addrString())
	case !ok && r.Err == nil:
		c.Fail(kind, input, "an error: the input is not in the language", r.addrString())
	case !ok && len(r.Addrs) != 0:
		c.Fail(kind, input, "no addresses next to the error", r.addrString())
	}
	return ok, true
}

// Construct checks the generator against the model: two independent accounts
// of what an input means. A difference is a defect of the harness, not of the
// library.
func (c *Ctx) Construct(input string, want []ref.Addr, cr ref.CharsetReader, maxLen int) bool {
	if maxLen > 0 && len(input) > maxLen {
		c.Count("construction.unchecked", 1)
		return true
	}
	m, ok, decided := c.Model(input, cr)
	if !decided {
		return true
	}
	if !ok || fmtWant(m) != fmtWant(want) {
		c.Broken("construction and model differ on %q: built %s, model accepts=%v %s", input, fmtWant(want), ok, fmtWant(m))
		return false
	}
	c.Count("construction.confirmed", 1)
	return true
}

// ---- watching a call that does not come back ----

// watch ends the worker if a call makes no progress: it has used far more CPU
// than any call should, or the process is idle with the call blocked, or the
// heap has exploded. Wall-clock time alone never decides.
func (c *Ctx) watch(report func(kind, detail string)) {
	var lastCall int64
	idle, lastCPU := 0, 0.0
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		n := c.inCall.Load()
		cpu := cpuSeconds()
		if n == 0 || n != lastCall {
			lastCall, idle, lastCPU = n, 0, cpu
			continue
		}
		used := cpu - float64(c.callCPU.Load())/1000
		if lim := float64(c.cpuLimit.Load()); used > lim {
			report("no-result", fmt.Sprintf("no result after %.0f CPU seconds", used))
			return
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			report("memory", fmt.Sprintf("heap grew to %d MB during one call", ms.HeapAlloc>>20))
			return
		}
		if cpu-lastCPU < 0.05 {
			idle++
		} else {
			idle = 0
		}
		lastCPU = cpu
		if idle >= 20 {
			buf := make([]byte, 1<<20)
			s := string(buf[:runtime.Stack(buf, true)])
			if blockedForever(s) {
				report("deadlock", "the call is blocked and nothing in the process can wake it:\n"+s)
				return
			}
		}
	}
}

// blockedForever says whether every goroutine with library frames waits on a
// lock, channel or wait group, and none runs.
func blockedForever(dump string) bool {
	found := false
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "go-rfc5322") && !strings.Contains(g, "/antlr") && !strings.Contains(g, "rfc5322.") {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		blocked := false
		for _, s := range []string{"sync.Mutex.Lock", "sync.RWMutex", "semacquire", "chan receive", "chan send", "select", "sync.WaitGroup", "sync.Cond", "sync.Once"} {
			if strings.Contains(head, s) {
				blocked = true
			}
		}
		if !blocked {
			return false
		}
		found = true
	}
	return found
}
