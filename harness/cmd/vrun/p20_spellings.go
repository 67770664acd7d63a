package main

import (
	"fmt"
	"time"

	"vharness/gen"
	"vharness/ref"
)

// spelled monitors several spellings of one list: they must all mean it, and
// so the same.
func (c *Ctx) spelled(kind string, ms []gen.Meaning, ways int) {
	var want []ref.Addr
	for _, m := range ms {
		want = append(want, ref.Addr{Name: m.Name, Address: m.Local + "@" + m.Domain})
	}
	first, firstRes := "", ""
	seen := map[string]bool{}
	for k := 0; k < ways; k++ {
		c.g.NoCFWS = k%2 == 0
		in := c.g.SpelledList(ms)
		if seen[in] || len(in) > 400 {
			continue
		}
		seen[in] = true
		r := c.Addr(in)
		got := r.addrString()
		c.Nontrivial(in)
		if r.Err != nil || r.Panic != nil || !sameAddrs(r.Addrs, want) {
			if c.confirmed(in, want) {
				c.Fail(kind, in, fmtWant(want), got)
			}
			return
		}
		if first == "" {
			first, firstRes = in, got
			continue
		}
		if got != firstRes {
			c.Fail(kind, in, firstRes+", like "+first, got)
			return
		}
		c.Count("pairs.of.spellings", 1)
	}
	c.Sample("%d spellings of %s", len(seen), fmtWant(want))
}

func init() {
	sections(&Prop{
		ID: "P20",
		Rule: "A made-up meaning (names, local parts, domains; or an instant with an offset) is written in several ways chosen at random and independently of each other: atoms, quoted strings with needless escapes and folds, " +
			"encoded words in both encodings and three charsets, cut anywhere; bare, angle, routed and grouped; named and numeric zones, long and short forms. All results have to be the same and to be the meaning. Non-trivial: a distinct spelling.",
		MinNontrivial: fixed(1500),
	},
		section{"mailboxes", tiers(500, 8000), func(c *Ctx, i int) {
			c.spelled("mailbox", []gen.Meaning{c.g.Meaning()}, 6)
		}},
		section{"lists", tiers(120, 3000), func(c *Ctx, i int) {
			var ms []gen.Meaning
			for n := 2 + c.rng.Intn(2); n > 0; n-- {
				ms = append(ms, c.g.Meaning())
			}
			c.spelled("list", ms, 4)
		}},
		section{"dates", tiers(2500, 25000), func(c *Ctx, i int) {
			now := time.Now().Year()
			zone := (c.rng.Intn(24*60*2) - 24*60 + 1) * 60
			if i%2 == 0 {
				zone = []int{0, 0, -4, -5, -6, -7, -8}[c.rng.Intn(7)] * 3600
			}
			t := time.Unix(-30*365*86400+c.rng.Int63n(int64(now-1941)*365*86400), 0).In(time.FixedZone("", zone))
			if i%3 == 0 { // times that end in zeros, or nearly
				h, m := c.rng.Intn(24), c.rng.Intn(60)
				switch c.rng.Intn(4) {
				case 0:
					h, m = 0, 0
				case 1:
					h, m = []int{0, 11, 12, 23}[c.rng.Intn(4)], []int{0, 0, 30, 59}[c.rng.Intn(4)]
				}
				t = time.Date(t.Year(), t.Month(), t.Day(), h, m, []int{0, 0, 0, 59}[c.rng.Intn(4)], 0, t.Location())
			}
			first := ""
			for k := 0; k < 6; k++ {
				c.g.NoCFWS = k%2 == 0
				in := c.g.SpelledDate(t, now)
				r := c.Date(in)
				bad := ""
				if r.Err != nil || r.Panic != nil {
					bad = r.dateString()
				} else if _, off := r.Time.Zone(); !r.Time.Equal(t) || off != zone {
					bad = r.dateString()
				}
				if bad != "" {
					if d, ok, decided := ref.DateTime(in); decided && (!ok || d.Unix(now) != t.Unix() || d.Offset != zone) {
						c.Broken("construction and model differ on %q: built %s, model accepts=%v %s", in, t, ok, dateWant(d))
					} else {
						c.Fail("date", in, fmt.Sprintf("%s, like %q", t.Format("2006-01-02T15:04:05-07:00"), first), bad)
					}
					return
				}
				c.Nontrivial(in)
				if first == "" {
					first = in
				} else {
					c.Count("pairs.of.spellings", 1)
				}
			}
		}},
	)
}
