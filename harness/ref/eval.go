package ref

import (
	"io"
	"mime"
	"strconv"
	"strings"
	"time"
)

// Addr is the model's counterpart of mail.Address.
type Addr struct{ Name, Address string }

// CharsetReader is the charset hook the model assumes to be installed.
type CharsetReader func(charset string, input io.Reader) (io.Reader, error)

// Addresses is the model of ParseAddressList: ok is whether the input must be
// accepted; decided is false if the model ran out of budget.
func Addresses(input string, cr CharsetReader) (addrs []Addr, ok, decided bool) {
	if input == "" {
		return nil, true, true
	}
	n, decided := Parse("addressList", input)
	if n == nil || !decided {
		return nil, false, decided
	}
	return EvalAddressList(n, cr), true, true
}

// Tree gives the reference tree for an address list.
func (n *Node) each(rule string, f func(*Node)) {
	for _, k := range n.Kids {
		if k.Is(rule) {
			f(k)
		}
	}
}

func (n *Node) first(rule string) *Node {
	for _, k := range n.Kids {
		if k.Is(rule) {
			return k
		}
	}
	return nil
}

func (n *Node) find(rule string, f func(*Node)) {
	for _, k := range n.Kids {
		if k.Is(rule) {
			f(k)
		} else {
			k.find(rule, f)
		}
	}
}

// EvalAddressList lists the mailboxes below a tree in input order.
func EvalAddressList(n *Node, cr CharsetReader) (out []Addr) {
	n.find("mailbox", func(m *Node) { out = append(out, evalMailbox(m, cr)) })
	return out
}

func evalMailbox(m *Node, cr CharsetReader) Addr {
	if s := m.first("addrSpec"); s != nil {
		return Addr{Address: evalAddrSpec(s, cr)}
	}
	na := m.first("nameAddr")
	var a Addr
	if d := na.first("displayName"); d != nil {
		a.Name = evalDisplayName(d, cr)
	}
	aa := na.first("angleAddr")
	if o := aa.first("obsAngleAddr"); o != nil {
		aa = o // the route is ignored
	}
	if s := aa.first("addrSpec"); s != nil {
		a.Address = evalAddrSpec(s, cr)
	}
	return a
}

func evalDisplayName(d *Node, cr CharsetReader) string {
	var out string
	glue := true
	for _, k := range d.Kids {
		switch {
		case k.Is("unspaced"):
			out += k.Text()
			glue = true
		case k.Is("word"):
			if !glue && out != "" {
				out += " "
			}
			glue = false
			out += evalWord(k, cr)
		}
	}
	return out
}

func evalWord(w *Node, cr CharsetReader) (out string) {
	for _, k := range w.Kids {
		switch {
		case k.Is("atom"):
			out += k.Text()
		case k.Is("quotedString"):
			out += evalQuotedString(k)
		case k.Is("encodedWord"):
			out += DecodeWord(k.Text(), cr)
		}
	}
	return out
}

// DecodeWord is the meaning of one RFC 2047 encoded word: its decoded text, or
// the raw text if it cannot be decoded.
func DecodeWord(raw string, cr CharsetReader) string {
	dec := &mime.WordDecoder{}
	if cr != nil {
		dec.CharsetReader = cr
	}
	if s, err := dec.Decode(raw); err == nil {
		return s
	}
	return raw
}

func unfold(s string) string { return strings.ReplaceAll(s, "\r\n", "") }

func evalQuotedString(q *Node) (out string) {
	var walk func(n *Node)
	walk = func(n *Node) {
		for _, k := range n.Kids {
			switch {
			case k.Rule < 0: // the quotes
			case k.Is("fws"):
				out += unfold(k.Text())
			case k.Is("qtext"):
				out += k.Text()
			case k.Is("quotedPair"):
				out += k.Text()[1:]
			default:
				walk(k)
			}
		}
	}
	walk(q)
	return out
}

func evalAddrSpec(s *Node, cr CharsetReader) string {
	var local, dom string
	lp := s.first("localPart")
	if o := lp.first("obsLocalPart"); o != nil {
		var ws []string
		o.each("word", func(w *Node) { ws = append(ws, evalWord(w, cr)) })
		local = strings.Join(ws, ".")
	} else if d := lp.first("dotAtom"); d != nil {
		local = d.Text()
	} else {
		local = evalQuotedString(lp.first("quotedString"))
	}
	dn := s.first("domain")
	if d := dn.first("dotAtom"); d != nil {
		dom = d.Text()
	} else if d := dn.first("domainLiteral"); d != nil {
		dom = unfold(d.Text())
	} else {
		var as []string
		dn.first("obsDomain").each("atom", func(a *Node) { as = append(as, a.Text()) })
		dom = strings.Join(as, ".")
	}
	if p := s.first("port"); p != nil {
		dom += ":" + p.Text()
	}
	return local + "@" + dom
}

// ---- date-time ----

// Date is the model of an accepted date-time.
type Date struct {
	Year, Month, Day, Hour, Min, Sec int
	Offset                           int    // seconds east of UTC
	Zone                             string // zone name as written, "UTC" if absent
	TwoDigit                         bool   // Year is the two digits as written
	HasZone                          bool
}

var months = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

// NamedZones are the obsolete zone names and their offsets in hours.
var NamedZones = map[string]int{
	"ut": 0, "utc": 0, "gmt": 0, "est": -5, "edt": -4, "cst": -6, "cdt": -5,
	"mst": -7, "mdt": -6, "pst": -8, "pdt": -7,
}

func (n *Node) digits() (string, int) {
	var s string
	for _, k := range n.Kids {
		if k.Rule < 0 && TokenName(k.Tok) == "Digit" {
			s += k.Text()
		}
	}
	v, _ := strconv.Atoi(s)
	return s, v
}

// DateTime is the model of ParseDateTime for non-empty input.
func DateTime(input string) (d Date, ok, decided bool) {
	n, decided := Parse("dateTime", input)
	if n == nil || !decided {
		return d, false, decided
	}
	return EvalDateTime(n), true, true
}

// EvalDateTime reads the fields of a reference tree.
func EvalDateTime(n *Node) (d Date) {
	d.Zone = "UTC"
	for _, k := range n.Kids {
		switch {
		case k.Is("day"):
			_, d.Day = k.digits()
		case k.Is("month"):
			t := strings.ToLower(k.Text())
			for i, m := range months {
				if m == t {
					d.Month = i + 1
				}
			}
		case k.Is("year"):
			var s string
			s, d.Year = k.digits()
			d.TwoDigit = len(s) == 2
		case k.Is("hour"):
			_, d.Hour = k.digits()
		case k.Is("minute"):
			_, d.Min = k.digits()
		case k.Is("second"):
			_, d.Sec = k.digits()
		case k.Is("zone"):
			d.HasZone = true
			if o := k.first("obsZone"); o != nil {
				d.Zone = o.Text()
				d.Offset = NamedZones[strings.ToLower(d.Zone)] * 3600
				break
			}
			t := k.first("offset").Text()
			if t[0] != '+' && t[0] != '-' {
				t = "+" + t
			}
			d.Zone = t
			hh, _ := strconv.Atoi(t[1:3])
			mm, _ := strconv.Atoi(t[3:5])
			d.Offset = (hh*60 + mm) * 60
			if t[0] == '-' {
				d.Offset = -d.Offset
			}
		}
	}
	return d
}

// FullYear resolves a two-digit year: the latest year with those digits that is
// not after the current one.
func FullYear(yy, now int) int {
	y := now - now%100 + yy
	if y > now {
		y -= 100
	}
	return y
}

// daysCivil counts days from 1970-01-01 in the proleptic Gregorian calendar
// (an own implementation, so that the model does not lean on package time).
func daysCivil(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

// Unix is the instant the fields denote, in seconds since the Unix epoch.
// Out-of-range fields carry over into the next larger unit.
func (d Date) Unix(now int) int64 {
	y := d.Year
	if d.TwoDigit {
		y = FullYear(y, now)
	}
	days := daysCivil(y, d.Month, 1) + int64(d.Day-1)
	return days*86400 + int64(d.Hour)*3600 + int64(d.Min)*60 + int64(d.Sec) - int64(d.Offset)
}

// Check says how t differs from the model, or "".
func (d Date) Check(t time.Time, nowBefore, nowAfter int) string {
	name, off := t.Zone()
	if u := t.Unix(); u != d.Unix(nowBefore) && u != d.Unix(nowAfter) {
		return "instant is unix " + strconv.FormatInt(u, 10) + ", want " + strconv.FormatInt(d.Unix(nowAfter), 10)
	}
	if t.Nanosecond() != 0 {
		return "nanoseconds are not zero"
	}
	if off != d.Offset {
		return "offset is " + strconv.Itoa(off) + ", want " + strconv.Itoa(d.Offset)
	}
	if name != d.Zone {
		return "zone name is " + strconv.Quote(name) + ", want " + strconv.Quote(d.Zone)
	}
	return ""
}

// CountRules counts rule applications, to report how much of the grammar a
// workload reached.
func (n *Node) CountRules(m map[string]int) {
	if n.Rule >= 0 {
		m[ruleNames[n.Rule]]++
	}
	for _, k := range n.Kids {
		k.CountRules(m)
	}
}
