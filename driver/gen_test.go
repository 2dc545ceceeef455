package verifdrv

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

// ---------------------------------------------------------------- profiles

// Profile steers the generator towards some part of the exchange.
type Profile struct {
	Name   string
	W      map[string]int // weights of the events of a block
	Blocks [2]int
	PerBlk [2]int
	Obs    int // percent of blocks followed by queries
	Inv    int // percent of blocks followed by the invariants
	Gen    int // percent of blocks followed by a genesis round trip
	Bad    int // percent of deliberately odd field values
	Ext    int // percent of runs with extreme scales
	Ranged int // percent of pools that are ranged
	NoPool bool
	Det    int  // replicas of every run
	Tiny   int  // percent of runs with pools of a few coins
	Dusty  int  // percent of runs whose orders are worth a few quote coins
	Chain  bool // blocks of signed transactions on two nodes
	Docs   int  // percent of blocks after which genesis documents are tried
	Sweep  int  // percent of blocks in which an order is met by several others
}

func merge(a map[string]int, b map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

var baseW = map[string]int{"pair": 3, "pool": 4, "rpool": 4, "deposit": 8, "withdraw": 8, "limit": 40, "mm": 8,
	"market": 10, "cancel": 8, "cancelall": 4, "params": 2, "send": 3}

var profiles = map[string]Profile{
	"mix":    {W: baseW, Blocks: [2]int{6, 14}, PerBlk: [2]int{0, 9}, Gen: 4, Bad: 8, Ext: 12, Ranged: 50, Tiny: 10, Dusty: 12, Sweep: 25},
	"match":  {W: map[string]int{"limit": 60, "mm": 8, "market": 10, "cancel": 2, "send": 1}, Blocks: [2]int{5, 10}, PerBlk: [2]int{3, 16}, Bad: 1, Ext: 15, NoPool: true, Dusty: 30, Sweep: 50},
	"pools":  {W: merge(baseW, map[string]int{"limit": 30, "deposit": 16, "withdraw": 16, "pool": 6, "rpool": 8, "params": 1}), Blocks: [2]int{6, 14}, PerBlk: [2]int{1, 7}, Bad: 3, Ext: 12, Ranged: 60, Tiny: 25, Dusty: 8, Sweep: 15},
	"orders": {W: merge(baseW, map[string]int{"pair": 1, "pool": 1, "rpool": 1, "deposit": 1, "withdraw": 1, "cancel": 20, "cancelall": 10, "mm": 20}), Blocks: [2]int{6, 14}, PerBlk: [2]int{1, 8}, Bad: 10, Ext: 8, Ranged: 50, Dusty: 10, Sweep: 20},
	"admit":  {W: merge(baseW, map[string]int{"params": 6, "pair": 5}), Blocks: [2]int{4, 8}, PerBlk: [2]int{4, 12}, Bad: 35, Ext: 20, Ranged: 50},
	"mm":     {W: map[string]int{"mm": 50, "limit": 20, "market": 5, "cancel": 15, "cancelall": 6, "params": 2}, Blocks: [2]int{6, 14}, PerBlk: [2]int{2, 8}, Bad: 4, NoPool: true, Gen: 3},
	"query":  {W: merge(baseW, map[string]int{"pair": 8, "pool": 8, "rpool": 8}), Blocks: [2]int{4, 8}, PerBlk: [2]int{2, 8}, Gen: 3, Bad: 3, Ext: 8, Ranged: 50, Tiny: 20},
	"gen":    {W: merge(baseW, map[string]int{"pair": 6, "pool": 6, "rpool": 6, "params": 4, "mm": 16}), Blocks: [2]int{4, 10}, PerBlk: [2]int{2, 8}, Gen: 60, Bad: 3, Ext: 8, Ranged: 50, Tiny: 8},
	"chain":  {W: merge(baseW, map[string]int{"pair": 6, "pool": 6, "rpool": 6, "params": 0}), Blocks: [2]int{5, 10}, PerBlk: [2]int{2, 12}, Bad: 5, Ext: 10, Ranged: 50, Tiny: 8, Dusty: 10, Chain: true},
	"docs":   {W: merge(baseW, map[string]int{"pair": 8, "pool": 8, "rpool": 8, "mm": 16, "deposit": 14, "withdraw": 14}), Blocks: [2]int{4, 8}, PerBlk: [2]int{2, 8}, Gen: 10, Bad: 3, Ext: 8, Ranged: 50, Tiny: 8, Docs: 100},
	"gov":    {W: merge(baseW, map[string]int{"params": 40}), Blocks: [2]int{4, 10}, PerBlk: [2]int{3, 9}, Bad: 30, Ranged: 50},
	"ext":    {W: merge(baseW, map[string]int{"params": 6, "send": 7}), Blocks: [2]int{5, 10}, PerBlk: [2]int{2, 9}, Bad: 6, Ext: 100, Ranged: 60, Tiny: 6, Sweep: 25},
	"det":    {W: merge(baseW, map[string]int{"params": 3}), Blocks: [2]int{6, 12}, PerBlk: [2]int{4, 14}, Gen: 6, Bad: 3, Ext: 10, Ranged: 50, Det: 3, Tiny: 10, Dusty: 10, Sweep: 25},
}

// ---------------------------------------------------------------- generator

// Denominations of the greatest length.
var long1, long2 = "l" + strings.Repeat("a", 127), "l" + strings.Repeat("b", 127)

type Gen struct {
	r    *rand.Rand
	rec  *Rec
	p    Profile
	nu   int      // users
	den  []string // denoms traded
	unit *big.Int // typical amount of base coins
	p0   *big.Int // typical raw price
	ext  bool
	pool *Ev  // the last ranged pool created
	tiny bool // pools of a few coins, which can be drained
	edge bool // ranged pools that reach the greatest or the smallest price
	huge bool // coins beyond what pools and orders may take
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

var prec18 = pow10(18)

func (g *Gen) pct(n int) bool { return g.r.Intn(100) < n }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func (g *Gen) user() string { return "u" + string(rune('1'+g.r.Intn(g.nu))) }

func nI(n int64) *big.Int { return big.NewInt(n) }

func (g *Gen) randBelow(n *big.Int) *big.Int {
	if n.Sign() <= 0 {
		return new(big.Int)
	}
	return new(big.Int).Rand(g.r, n)
}

// start of a run.
func (g *Gen) init() *Ev {
	g.nu = 2 + g.r.Intn(4)
	g.den = pick(g.r, []string{"aaa", "bbb", "ccc"}, []string{"aaa", "bbb", "ccc"}, []string{"aaa", "bbb", "ccc"},
		[]string{"aaa", "aaaa", "ccc"}, []string{long1, long2, "aaa"}, []string{"bbb", long2, long1})[:2+g.r.Intn(2)]
	g.ext = g.pct(g.p.Ext)
	ue, pe := 2+g.r.Intn(8), g.r.Intn(7)-3
	if g.ext {
		ue, pe = 2+g.r.Intn(34), g.r.Intn(36)-15
	}
	g.unit = new(big.Int).Mul(nI(int64(1+g.r.Intn(9))), pow10(ue))
	g.p0 = new(big.Int).Mul(nI(int64(10+g.r.Intn(990))), pow10(max(0, 16+pe)))
	if g.pct(25) { // prices just around a power of ten, where ticks change size
		g.p0 = pow10(max(3, 18+pe))
	}
	g.tiny = !g.p.NoPool && g.pct(g.p.Tiny)
	if g.tiny {
		g.unit = new(big.Int).Mul(nI(int64(1+g.r.Intn(9))), pow10(2+g.r.Intn(2)))
		g.p0 = new(big.Int).Mul(nI(int64(10+g.r.Intn(990))), pow10(13+g.r.Intn(5)))
	}
	g.edge = g.ext && !g.p.NoPool && g.pct(10)
	if g.edge {
		g.tiny = true
		g.unit = new(big.Int).Mul(nI(int64(1+g.r.Intn(9))), pow10(g.r.Intn(4)))
		if g.pct(50) {
			g.p0 = new(big.Int).Mul(nI(int64(1+g.r.Intn(99))), pow10(4+g.r.Intn(33)))
		}
	}
	if !g.tiny && g.pct(g.p.Dusty) {
		g.ext = false
		g.unit = nI(int64(60 + r2(g.r, 4)))
		g.p0 = new(big.Int).Mul(nI(int64(5+g.r.Intn(400))), pow10(17))
		g.p0.Quo(g.p0, g.unit)
	}
	par := g.params(true)
	if g.ext && g.pct(15) { // the lowest prices there are
		g.p0 = nI(int64(1 + g.r.Intn(40)))
		g.unit = new(big.Int).Mul(nI(int64(1+g.r.Intn(9))), pow10(17+g.r.Intn(4)))
		par.Tp = uint32(g.r.Intn(2))
		par.Ratio = pick(g.r, raw(1, 1), raw(5, 1), raw(6, 1), raw(9, 1), raw(999, 3))
	}
	if g.tiny {
		par.Mind = enc(nI(int64(g.r.Intn(2))))
	}
	g.huge = g.ext && !g.tiny && g.pct(15)
	vast := map[string]*big.Int{}
	if g.huge {
		for _, d := range g.den {
			if g.pct(60) {
				vast[d] = new(big.Int).Lsh(nI(1), uint(130+g.r.Intn(127)))
				vast[d].Quo(vast[d], nI(int64(g.nu+1)))
			}
		}
	}
	fund := map[string][]Coin{}
	for i := 1; i <= g.nu; i++ {
		var cs []Coin
		for _, d := range append(append([]string{}, g.den...), "stake") {
			a := new(big.Int).Mul(g.unit, pow10(3+g.r.Intn(4)))
			q := new(big.Int).Mul(a, g.p0)
			q.Quo(q, prec18)
			if q.Cmp(a) > 0 {
				a = q // enough to act as quote coins too
			}
			if a.BitLen() > 200 {
				a = pow10(50)
			}
			if d == "stake" {
				a = nI(int64(g.r.Intn(12)) * 1000)
				if i <= 2 && g.pct(90) {
					a = nI(50000)
				}
			} else if g.pct(6) {
				a = nI(int64(g.r.Intn(2000)))
			}
			if v := vast[d]; v != nil && g.pct(80) {
				a = v
			}
			if a.Sign() > 0 {
				cs = append(cs, Coin{d, enc(a)})
			}
		}
		fund["u"+string(rune('0'+i))] = sortCoins(cs)
	}
	e := &Ev{M: "init", Chain: g.p.Chain, H: int64(1 + g.r.Intn(20)), T: int64(g.r.Intn(100000)), Par: par, Fund: fund}
	if e.Chain {
		e.H = 1
	}
	if g.pct(92) { // somebody can pay what creating a pair and a pool costs
		have := map[string]*big.Int{}
		for _, c := range fund["u1"] {
			have[c.D] = c.A.big()
		}
		for _, c := range append(append([]Coin{}, par.Pcf...), par.Plf...) {
			a, ok := have[c.D]
			if !ok {
				a = nI(0)
			}
			have[c.D] = a.Add(a, c.A.big())
		}
		cs := []Coin{}
		for _, d := range sortedKeys(have) {
			if have[d].Sign() > 0 {
				cs = append(cs, Coin{d, enc(have[d])})
			}
		}
		fund["u1"] = sortCoins(cs)
	}
	if g.pct(12) { // a chain that has seen many pairs, pools, orders and batches
		n := func() uint64 { return uint64(pick(g.r, 0, 7, 9, 98, 99, 253, 254, 255, 65533, 65534)) }
		e.Lp, e.Ll = n(), n()
		var ps [][2]string
		if len(g.den) > 2 && g.pct(40) {
			ps = append(ps, [2]string{g.den[2], g.den[0]})
		}
		if g.pct(70) {
			ps = append(ps, [2]string{g.den[0], g.den[1]})
		}
		for i, d := range ps {
			if e.Lp < 2 {
				e.Lp = 2
			}
			id := e.Lp + uint64(i+1-len(ps))
			e.Gp = append(e.Gp, Pair{ID: id, Base: d[0], Quote: d[1], Esc: fmt.Sprintf("esc%d", id), Last: []Big{}, Lo: n(), Batch: 1 + n()})
		}
	}
	return e
}

// r2 is a number below 10^n, of any number of digits.
func r2(r *rand.Rand, n int) int {
	m := 1
	for i := r.Intn(n); i >= 0; i-- {
		m *= 10
	}
	return r.Intn(m)
}

func raw(n int64, e int) Big { return enc(new(big.Int).Mul(nI(n), pow10(18-e))) }

// params gives valid parameters: small and sharp ones, so that every limit is met.
func (g *Gen) params(start bool) *Par {
	r := g.r
	fee := func() []Coin {
		switch r.Intn(4) {
		case 0:
			return []Coin{}
		case 1:
			return []Coin{{"aaa", enc(nI(int64(1 + r.Intn(50))))}, {"stake", enc(nI(int64(1 + r.Intn(500))))}}
		default:
			return []Coin{{"stake", enc(nI(int64(1 + r.Intn(900))))}}
		}
	}
	p := &Par{
		Bs: pick(r, uint32(1), 1, 1, 1, 1, 2, 3), Tp: pick(r, uint32(4), 4, 4, 4, 1, 2, 3, 5, 0, 7, uint32(r.Intn(16))), Fee: pick(r, "fee", "fee", "fee", "fee2", "u1"),
		Dust: pick(r, "dust", "dust", "dust", "dust2", "u1", "fee"),
		Mips: enc(pow10(r.Intn(13))), Pcf: fee(), Plf: fee(), Mind: enc(nI(pick(r, int64(0), 1, 100, 1000, 1000000))),
		Ratio: pick(r, raw(1, 1), raw(1, 1), raw(1, 1), raw(5, 2), raw(5, 1), Big{0}, raw(9, 1), enc(nI(123456789123456789)), pick(r, raw(999, 3), enc(new(big.Int).Sub(prec18, nI(1))), raw(6, 1))),
		Mmt:   uint32(1 + r.Intn(10)), Mmmax: uint32(1 + r.Intn(4)), Life: pick(r, int64(86400000), 86400000, 60000, 5000, 0),
		Swap: Big{0}, Wfee: pick(r, Big{0}, Big{0}, raw(3, 3), raw(1, 1), raw(1, 0), enc(nI(333333333333333333))),
		Dgas: uint64(r.Intn(3)) * 150000, Wgas: uint64(r.Intn(3)) * 170000, Ogas: uint64(r.Intn(3)) * 190000,
		Maxp: uint32(1 + r.Intn(4)),
	}
	if g.unit != nil && g.unit.Cmp(nI(10000)) < 0 {
		p.Mind = enc(nI(pick(r, int64(0), 1, 100)))
	}
	if start && g.pct(30) {
		p.Maxp = 20
	}
	// with a wide range and fine ticks, pools place hundreds of orders
	if wide := p.Ratio.big().Cmp(raw(2, 1).big()) > 0; wide && p.Tp > 2 && !(g.ext && g.pct(25)) {
		p.Tp = uint32(r.Intn(3))
	}
	return p
}

// unset parameters: one field out of its range.
func (g *Gen) badParams(p *Par) {
	r := g.r
	switch r.Intn(14) {
	case 13:
		p.Tp = pick(r, uint32(16), 18, 19, 100, 4000000)
	case 0:
		p.Bs = 0
	case 1:
		p.Fee = pick(r, "", "cosmos1bad", "no address")
	case 2:
		p.Dust = pick(r, "", "cosmos1bad")
	case 3:
		p.Mips = pick(r, Big{0}, Big{-1, 5}, Big{9})
	case 4:
		p.Pcf = []Coin{{"stake", pick(r, Big{0}, Big{-1, 3})}}
	case 5:
		p.Plf = []Coin{{"stake", Big{1, 3}}, {"aaa", Big{1, 3}}}
	case 6:
		p.Mind = pick(r, Big{-1, 1}, Big{9})
	case 7:
		p.Ratio = pick(r, raw(-1, 1), Big{9}, raw(1, 0), raw(11, 1), raw(5, 0))
	case 8:
		p.Mmt = 0
	case 9:
		p.Mmmax = 0
	case 10:
		p.Life = -1
	case 11:
		p.Wfee = pick(r, raw(-1, 1), Big{9}, raw(11, 1), raw(2, 0), enc(new(big.Int).Add(prec18, nI(1))))
	case 12:
		p.Swap = pick(r, raw(-1, 1), Big{9}, raw(11, 1))
	}
}

// ticks -------------------------------------------------------------------

func digits(x *big.Int) int { return len(x.String()) }

// tickDown rounds a raw price down to k+1 significant digits.
func tickDown(x *big.Int, k int) *big.Int {
	d := digits(x) - 1 - k
	if d <= 0 {
		return new(big.Int).Set(x)
	}
	u := pow10(d)
	return new(big.Int).Mul(new(big.Int).Quo(x, u), u)
}

func tickGap(x *big.Int, k int) *big.Int { return pow10(max(0, digits(x)-1-k)) }

func clampPrice(x *big.Int) *big.Int {
	if x.Sign() <= 0 {
		return nI(1)
	}
	return x
}

func (g *Gen) tp() int { return int(g.rec.cur.Par.Tp) }

// center of the prices of a pair.
func (g *Gen) center(p *Pair) *big.Int {
	if p != nil && len(p.Last) > 0 && g.pct(85) {
		return p.Last[0].big()
	}
	return g.p0
}

func (g *Gen) price(p *Pair) *big.Int {
	c, k := g.center(p), g.tp()
	t := tickDown(c, k)
	step := func(x *big.Int, n int64) *big.Int {
		return clampPrice(new(big.Int).Add(x, new(big.Int).Mul(tickGap(x, k), nI(n))))
	}
	if len(g.rec.cur.Orders) > 0 && g.pct(20) { // meet an order
		return g.rec.cur.Orders[g.r.Intn(len(g.rec.cur.Orders))].Price.big()
	}
	switch x := g.r.Intn(100); {
	case x < 55:
		return step(t, int64(g.r.Intn(7)-3))
	case x < 65:
		return step(t, int64(g.r.Intn(61)-30))
	case x < 75: // anything near
		m := new(big.Int).Mul(c, nI(int64(800+g.r.Intn(400))))
		return clampPrice(m.Quo(m, nI(1000)))
	case x < 82: // around the price limits
		ratio := g.rec.cur.Par.Ratio.big()
		m := new(big.Int)
		if g.pct(50) {
			m.Add(prec18, ratio)
		} else {
			m.Sub(prec18, ratio)
		}
		m.Mul(m, c).Quo(m, prec18)
		return clampPrice(m.Add(m, new(big.Int).Mul(nI(int64(g.r.Intn(3)-1)), pick(g.r, nI(1), tickGap(clampPrice(m), k)))))
	case x < 90:
		return clampPrice(new(big.Int).Add(t, g.randBelow(tickGap(t, k))))
	case x < 95:
		m := new(big.Int).Mul(c, nI(int64(500+g.r.Intn(1000))))
		return clampPrice(tickDown(clampPrice(m.Quo(m, nI(1000))), k))
	default:
		if !g.ext && !g.pct(30) {
			return t
		}
		return new(big.Int).Mul(nI(int64(1+g.r.Intn(99))), pow10(g.r.Intn(56)))
	}
}

var maxCoin = pow10(40)

func (g *Gen) amount() *big.Int {
	u := g.unit
	switch x := g.r.Intn(100); {
	case x < 50:
		return new(big.Int).Mul(u, nI(pick(g.r, int64(1), 1, 1, 2, 3, 5)))
	case x < 65:
		return new(big.Int).Add(u, nI(int64(g.r.Intn(200)-100)))
	case x < 80:
		return g.randBelow(new(big.Int).Mul(u, nI(10)))
	case x < 90:
		return nI(int64(95 + g.r.Intn(20)))
	case x < 97:
		return nI(int64(g.r.Intn(20000)))
	default:
		if g.ext {
			return pick(g.r, maxCoin, new(big.Int).Add(maxCoin, nI(1)), pow10(g.r.Intn(41)))
		}
		return new(big.Int).Mul(u, nI(int64(1+g.r.Intn(1000))))
	}
}

func (g *Gen) bal(u, d string) *big.Int {
	if b, ok := g.rec.cur.Bal[u][d]; ok {
		return b.big()
	}
	return new(big.Int)
}

func ceilMul(p, a *big.Int) *big.Int {
	m := new(big.Int).Mul(p, a)
	m.Add(m, new(big.Int).Sub(prec18, nI(1)))
	return m.Quo(m, prec18)
}

func (g *Gen) pairs() []Pair { return g.rec.cur.Pairs }

func (g *Gen) anyPair() *Pair {
	ps := g.pairs()
	if len(ps) == 0 {
		return nil
	}
	return &ps[g.r.Intn(len(ps))]
}

func (g *Gen) pairID() uint64 {
	if p := g.anyPair(); p != nil && !g.pct(g.p.Bad) {
		return p.ID
	}
	if ps := g.pairs(); len(ps) > 0 && g.pct(50) { // next to the ids there are
		return ps[0].ID - 1 + uint64(g.r.Intn(len(ps)+2))
	}
	return uint64(g.r.Intn(5))
}

func (g *Gen) pairByID(id uint64) *Pair {
	for i, p := range g.pairs() {
		if p.ID == id {
			return &g.pairs()[i]
		}
	}
	return nil
}

func (g *Gen) anyPool() *PoolR {
	ps := g.rec.cur.Pools
	if len(ps) == 0 {
		return nil
	}
	return &ps[g.r.Intn(len(ps))]
}

func (g *Gen) denom() string {
	if g.pct(g.p.Bad) {
		return pick(g.r, "", "zzz", "stake", "1bad", "ddd", "pool1", g.den[0])
	}
	return pick(g.r, g.den...)
}

// tweak makes a number odd.
func (g *Gen) tweak(b *big.Int) Big {
	if g.pct(g.p.Bad / 3) {
		return pick(g.r, Big{0}, Big{9}, enc(new(big.Int).Neg(b)), enc(nI(1)), enc(nI(99)), enc(nI(100)), enc(maxCoin),
			enc(new(big.Int).Add(maxCoin, nI(1))), enc(pow10(60)), enc(new(big.Int).Lsh(nI(1), 255)))
	}
	return enc(b)
}

func (g *Gen) who() string {
	if g.pct(g.p.Bad / 6) {
		return pick(g.r, "", "garbage", "u9")
	}
	return g.user()
}

func sortCoins(cs []Coin) []Coin {
	sort.Slice(cs, func(i, j int) bool { return cs[i].D < cs[j].D })
	return cs
}

// try makes an event that will probably be accepted: of the given kind or, if
// that seems impossible, of another one.
func (g *Gen) try(kind string, other func() string) *Ev {
	e := g.event(kind)
	for n := 0; n < 4 && !g.pct(g.p.Bad+8); n++ {
		if g.rec.dry(e) != "rej" {
			break
		}
		if n == 2 && other != nil {
			kind = other()
		}
		e = g.event(kind)
	}
	return e
}

// event makes an event; no amount in it is beyond what a message can hold.
func (g *Gen) event(kind string) *Ev {
	e := g.draft(kind)
	fit := func(b *Big) {
		if x := b.big(); x != nil && x.BitLen() > 256 {
			m := new(big.Int).Sub(new(big.Int).Lsh(nI(1), 256), nI(1))
			if x.Sign() < 0 {
				m.Neg(m)
			}
			*b = enc(m)
		}
	}
	fit(&e.Amt)
	fit(&e.Oc.A)
	fit(&e.Pc.A)
	for i := range e.Coins {
		fit(&e.Coins[i].A)
	}
	return e
}

func (g *Gen) draft(kind string) *Ev {
	if g.huge && g.pct(12) && len(g.rec.cur.Pools) > 0 {
		kind = "send"
	}
	r := g.r
	switch kind { // there is nothing to do it with yet
	case "pool", "rpool", "limit", "market", "mm", "cancel", "cancelall":
		if len(g.pairs()) == 0 && g.pct(85) {
			kind = "pair"
		}
	case "deposit", "withdraw":
		if g.anyPool() == nil && g.pct(85) {
			kind = pick(r, "pool", "rpool")
			if len(g.pairs()) == 0 {
				kind = "pair"
			}
		}
	}
	e := &Ev{M: kind, Who: g.who()}
	switch kind {
	case "pair":
		e.Base, e.Quote = g.denom(), g.denom()
		if e.Base == e.Quote && !g.pct(20) {
			e.Base, e.Quote = g.den[0], g.den[1]
			if g.pct(30) {
				e.Base, e.Quote = g.den[len(g.den)-1], g.den[0]
			}
		}
	case "pool":
		e.Pair = g.pairID()
		e.Coins = g.poolCoins(g.pairByID(e.Pair))
	case "rpool":
		e.Pair = g.pairID()
		p := g.pairByID(e.Pair)
		e.Coins = g.poolCoins(p)
		k := g.tp()
		if g.pct(10) { // the ticks of another precision
			k = max(0, k+pick(r, -2, -1, 1, 2))
		}
		c := tickDown(g.center(p), k)
		w := func(lo, hi int) *big.Int {
			m := new(big.Int).Mul(c, nI(int64(lo+r.Intn(hi-lo+1))))
			return tickDown(clampPrice(m.Quo(m, nI(1000))), k)
		}
		mn, mx := w(500, 999), w(1001, 2000)
		if g.pct(30) {
			mn, mx = w(10, 900), w(1100, 9999)
		}
		if g.pct(15) {
			mn, mx = w(980, 1000), w(1000, 1020)
		}
		if g.edge && g.pct(80) {
			switch r.Intn(3) {
			case 0:
				mx = pow10(38)
			case 1:
				mn = pow10(3)
			case 2:
				mn, mx = pow10(3), pow10(38)
			}
		}
		ini := c
		switch r.Intn(8) {
		case 0:
			ini = mn
		case 1:
			ini = mx
		case 2:
			ini = w(900, 1100)
		}
		if g.pct(g.p.Bad) {
			switch r.Intn(5) {
			case 0:
				mn, mx = mx, mn
			case 1:
				ini = new(big.Int).Add(ini, nI(1))
			case 2:
				mx = pick(r, pow10(38), pow10(39))
			case 3:
				mn = pick(r, pow10(3), pow10(2), pow10(4), nI(9999))
			case 4:
				ini = w(100, 3000)
			}
		}
		if (ini.Cmp(mn) == 0 || ini.Cmp(mx) == 0) && g.pct(60) && p != nil && len(e.Coins) == 2 {
			d := p.Quote
			if ini.Cmp(mn) == 0 {
				d = p.Base
			}
			for _, c := range e.Coins {
				if c.D == d {
					e.Coins = []Coin{c}
					break
				}
			}
		}
		e.Min, e.Max, e.Ini = g.tweak(mn), g.tweak(mx), g.tweak(ini)
		if p != nil && len(e.Coins) == 2 && g.pct(30) {
			g.exactly(p, e)
		}
		if g.pool != nil && g.pct(25) { // a twin of an earlier pool
			e.Pair, e.Coins, e.Min, e.Max, e.Ini = g.pool.Pair, g.pool.Coins, g.pool.Min, g.pool.Max, g.pool.Ini
		}
		g.pool = e
	case "deposit":
		e.Pool = uint64(r.Intn(4))
		if q := g.anyPool(); q != nil {
			if !g.pct(g.p.Bad / 2) {
				e.Pool = q.ID
			}
			p := g.pairByID(q.Pair)
			rx, ry := g.bal(q.Res, p.Quote), g.bal(q.Res, p.Base)
			f := nI(int64(1 + r.Intn(300)))
			x, y := new(big.Int).Mul(rx, f), new(big.Int).Mul(ry, f)
			x.Quo(x, nI(200))
			y.Quo(y, nI(200))
			if g.pct(30) {
				x.Add(x, g.randBelow(nI(1000)))
				y.Add(y, g.randBelow(nI(1000)))
			}
			if g.pct(20) {
				x = g.amount()
			}
			if g.pct(20) {
				y = g.amount()
			}
			if g.pct(10) {
				x, y = nI(int64(1+r.Intn(3))), nI(int64(1+r.Intn(3)))
			}
			big10 := new(big.Int).Quo(maxCoin, nI(10))
			if g.ext && (g.pct(10) || (rx.Cmp(big10) > 0 || ry.Cmp(big10) > 0) && g.pct(30)) { // as much as the pool may still take
				if g.pct(70) {
					x = new(big.Int).Sub(new(big.Int).Add(maxCoin, nI(int64(r.Intn(3)-1))), rx)
				}
				if g.pct(70) {
					y = new(big.Int).Sub(new(big.Int).Add(maxCoin, nI(int64(r.Intn(3)-1))), ry)
				}
			}
			if x.Cmp(g.bal(e.Who, p.Quote)) > 0 && !g.pct(10) {
				x = g.randBelow(g.bal(e.Who, p.Quote))
			}
			if y.Cmp(g.bal(e.Who, p.Base)) > 0 && !g.pct(10) {
				y = g.randBelow(g.bal(e.Who, p.Base))
			}
			if x.Sign() > 0 || g.pct(2) {
				e.Coins = append(e.Coins, Coin{p.Quote, g.tweak(x)})
			}
			if (y.Sign() > 0 || g.pct(2)) && !g.pct(3) {
				e.Coins = append(e.Coins, Coin{p.Base, g.tweak(y)})
			}
			if g.pct(g.p.Bad / 3) {
				e.Coins = append(e.Coins, Coin{g.denom(), Big{1, 50}})
			}
		} else {
			e.Coins = []Coin{{g.den[0], Big{1, 500}}, {g.den[1], Big{1, 500}}}
		}
		if !g.pct(g.p.Bad / 5) {
			sortCoins(e.Coins)
		}
	case "withdraw":
		e.Pool, e.Pc = uint64(r.Intn(4)), Coin{"pool1", Big{1, 77}}
		if q := g.anyPool(); q != nil {
			if !g.pct(g.p.Bad / 2) {
				e.Pool = q.ID
			}
			// somebody who has the pool's coins
			var hs []string
			for _, u := range sortedKeys(g.rec.cur.Bal) {
				if u[0] == 'u' && g.bal(u, q.Pcd).Sign() > 0 {
					hs = append(hs, u)
				}
			}
			if len(hs) > 0 && !g.pct(g.p.Bad) {
				e.Who = pick(r, hs...)
			}
			b := g.bal(e.Who, q.Pcd)
			a := new(big.Int).Set(b)
			switch x := r.Intn(10); {
			case x < 3:
			case x < 5:
				a.Quo(a, nI(2))
			case x < 7:
				a = g.randBelow(b)
			case x < 8:
				a = nI(int64(1 + r.Intn(100)))
			case x < 9:
				a.Sub(a, nI(1))
			default:
				a.Add(a, nI(int64(r.Intn(2))))
			}
			e.Pc = Coin{q.Pcd, g.tweak(a)}
			if g.pct(g.p.Bad / 3) {
				e.Pc.D = pick(r, "pool1", "pool2", "aaa")
			}
		}
	case "limit", "mm", "market":
		g.order(e)
	case "cancel":
		e.Pair, e.ID = g.pairID(), uint64(r.Intn(10))
		if os := g.rec.cur.Orders; len(os) > 0 && !g.pct(10) {
			o := os[r.Intn(len(os))]
			e.Pair, e.ID = o.Pair, o.ID
			if !g.pct(15) {
				e.Who = o.Who
			}
		}
	case "cancelall":
		if !g.pct(40) {
			for _, p := range g.pairs() {
				if g.pct(60) {
					e.Pairs = append(e.Pairs, p.ID)
				}
			}
			if g.pct(g.p.Bad) {
				e.Pairs = append(e.Pairs, uint64(r.Intn(5)))
			}
		}
		if os := g.rec.cur.Orders; len(os) > 0 && !g.pct(20) {
			e.Who = os[r.Intn(len(os))].Who
		}
	case "params":
		if g.pct(80) {
			e.Who = "gov"
		} else {
			e.Who = pick(r, g.user(), "mod", "", "garbage", "fee")
		}
		e.Par = g.params(false)
		if g.pct(50) { // change a few things only
			c := g.rec.cur.Par
			n := *e.Par
			*e.Par = c
			switch r.Intn(9) {
			case 0:
				e.Par.Bs = n.Bs
			case 1, 2:
				e.Par.Tp, e.Par.Ratio = n.Tp, n.Ratio
			case 3:
				e.Par.Mmmax = n.Mmmax
			case 4:
				e.Par.Maxp = n.Maxp
			case 5:
				e.Par.Wfee = n.Wfee
			case 6:
				e.Par.Life = n.Life
			case 7:
				e.Par.Dust, e.Par.Fee = n.Dust, n.Fee
			case 8:
				e.Par.Pcf, e.Par.Plf, e.Par.Mind = n.Pcf, n.Plf, n.Mind
			}
		}
		if g.pct(g.p.Bad + 5) {
			g.badParams(e.Par)
		}
	case "send":
		e.Who = g.user()
		e.To = g.user()
		d := pick(r, append(append([]string{}, g.den...), "stake")...)
		a := g.randBelow(new(big.Int).Add(g.unit, nI(1)))
		st := g.rec.cur
		x := r.Intn(10)
		if g.huge && g.pct(70) {
			x = 5
		}
		switch {
		case x < 4 && len(st.Pools) > 0: // hand over pool coins
			q := g.anyPool()
			d = q.Pcd
			a = g.bal(e.Who, d)
		case x < 6 && len(st.Pools) > 0:
			q := g.anyPool()
			e.To = q.Res
			if g.pct(80) {
				p := g.pairByID(q.Pair)
				d = pick(r, p.Base, p.Quote)
			}
			if g.huge && g.pct(70) {
				for _, u := range sortedKeys(g.rec.cur.Bal) { // the richest
					if u[0] == 'u' && g.bal(u, d).Cmp(g.bal(e.Who, d)) > 0 {
						e.Who = u
					}
				}
				a = g.bal(e.Who, d)
				if g.pct(60) {
					a = new(big.Int).Rsh(a, uint(r.Intn(a.BitLen()+1)))
				}
			}
		case x < 7 && len(st.Pairs) > 0:
			e.To = g.anyPair().Esc
		case x < 8:
			e.To = pick(r, "gesc", "dust", "fee")
		}
		if a.Sign() == 0 {
			a = nI(1)
		}
		e.Coins = []Coin{{d, enc(a)}}
	}
	return e
}

// exactly offers the coins that a ranged pool takes, of one kind or of both.
func (g *Gen) exactly(p *Pair, e *Ev) {
	amt := func(d string) math.Int {
		for _, c := range e.Coins {
			if c.D == d {
				return c.A.int()
			}
		}
		return math.ZeroInt()
	}
	_, _ = guard(func() error {
		q, err := amm.CreateRangedPool(amt(p.Quote), amt(p.Base), e.Min.dec(), e.Max.dec(), e.Ini.dec())
		if err != nil {
			return err
		}
		rx, ry := q.Balances()
		which := g.r.Intn(3)
		for i := range e.Coins {
			if e.Coins[i].D == p.Quote && which != 0 && rx.IsPositive() {
				e.Coins[i].A = encI(rx)
			}
			if e.Coins[i].D == p.Base && which != 1 && ry.IsPositive() {
				e.Coins[i].A = encI(ry)
			}
		}
		return nil
	})
}

func (g *Gen) poolCoins(p *Pair) []Coin {
	b, q := g.den[0], g.den[1]
	var last *Pair
	if p != nil {
		b, q, last = p.Base, p.Quote, p
	}
	y := new(big.Int).Mul(g.unit, nI(int64(1+g.r.Intn(50))))
	if g.pct(30) {
		y = g.amount()
	}
	x := new(big.Int).Mul(y, g.center(last))
	x.Quo(x, prec18)
	if g.pct(20) {
		x = g.amount()
	}
	if g.ext && g.pct(12) { // as large as a pool may be
		y = new(big.Int).Quo(maxCoin, nI(int64(1+g.r.Intn(4))))
		if g.pct(50) {
			x = new(big.Int).Quo(maxCoin, nI(int64(1+g.r.Intn(4))))
		}
	}
	if g.tiny && g.pct(80) {
		x, y = nI(int64(1+g.r.Intn(12))), nI(int64(1+g.r.Intn(12)))
		if g.pct(50) {
			y = nI(int64(95 + g.r.Intn(120)))
		}
		if g.pct(40) {
			x = nI(int64(95 + g.r.Intn(120)))
		}
	}
	if x.Sign() == 0 {
		x = nI(int64(1 + g.r.Intn(1000)))
	}
	if y.Sign() == 0 {
		y = nI(1)
	}
	cs := []Coin{{b, g.tweak(y)}, {q, g.tweak(x)}}
	if g.pct(g.p.Bad / 3) {
		cs = append(cs, Coin{"ddd", Big{1, 5}})
	}
	if g.pct(g.p.Bad / 3) {
		cs = cs[:1]
	}
	if g.pct(g.p.Bad / 3) {
		cs[0].D = g.denom()
	}
	if !g.pct(g.p.Bad / 5) {
		sortCoins(cs)
	}
	return cs
}

func (g *Gen) order(e *Ev) {
	r := g.r
	e.Pair = g.pairID()
	p := g.pairByID(e.Pair)
	base, quote := g.den[0], g.den[1]
	if p != nil {
		base, quote = p.Base, p.Quote
	}
	e.Dir = pick(r, "b", "s")
	price := g.price(p)
	amt := g.amount()
	e.Life = pick(r, int64(0), 0, 1, 1000, 3000, 5000, 10000, 60000, 86400000, 86400000)
	if e.Life > g.rec.cur.Par.Life && !g.pct(4) {
		e.Life = g.rec.cur.Par.Life
	}
	ref := price
	if e.M == "market" && p != nil && len(p.Last) > 0 {
		m := new(big.Int).Add(prec18, g.rec.cur.Par.Ratio.big())
		m.Mul(m, p.Last[0].big()).Quo(m, prec18)
		ref = m
	}
	need := amt
	if e.Dir == "b" {
		need = ceilMul(ref, amt)
		if b := g.bal(e.Who, quote); need.Cmp(b) > 0 && !g.pct(20) && b.Sign() > 0 {
			// what the user can afford
			amt = new(big.Int).Mul(b, prec18)
			amt.Quo(amt, ref)
			if amt.Cmp(maxCoin) > 0 {
				amt = maxCoin
			}
			need = ceilMul(ref, amt)
		}
	} else if b := g.bal(e.Who, base); need.Cmp(b) > 0 && !g.pct(20) && b.Sign() > 0 {
		amt, need = b, b
	}
	oc := new(big.Int).Set(need)
	switch r.Intn(12) {
	case 0:
		oc.Add(oc, nI(1))
	case 1:
		oc.Add(oc, g.randBelow(g.unit))
	case 2:
		if g.pct(40) {
			oc.Sub(oc, nI(1))
		}
	}
	e.Amt, e.Price = g.tweak(amt), g.tweak(price)
	if e.Dir == "b" {
		e.Oc, e.Dd = Coin{quote, g.tweak(oc)}, base
	} else {
		e.Oc, e.Dd = Coin{base, g.tweak(oc)}, quote
	}
	if g.pct(g.p.Bad) {
		switch r.Intn(8) {
		case 0:
			e.Oc.D = g.denom()
		case 1:
			e.Dd = g.denom()
		case 2:
			e.Oc.D, e.Dd = e.Dd, e.Oc.D
		case 3:
			e.Dir = pick(r, "", "x", "b", "s")
		case 4:
			e.Life = pick(r, int64(-1), g.rec.cur.Par.Life+1, g.rec.cur.Par.Life-1)
		case 5:
			e.Amt = enc(nI(int64(98 + r.Intn(4))))
		case 6:
			e.Oc.A = enc(nI(int64(98 + r.Intn(4))))
		case 7:
			e.Price = pick(r, Big{0}, Big{-1, 5}, Big{1, 1}, enc(pow10(g.r.Intn(90))), Big{9})
		}
	}
}

// sweep meets one order by several smaller ones at different prices.
func (g *Gen) sweep() {
	var live []OrderR
	for _, o := range g.rec.cur.Orders {
		if o.St == "new" || o.St == "open" || o.St == "part" {
			live = append(live, o)
			if o.St == "part" {
				live = append(live, o, o)
			}
		}
	}
	if len(live) == 0 {
		return
	}
	o := live[g.r.Intn(len(live))]
	p := g.pairByID(o.Pair)
	rest, price := o.Open.big(), o.Price.big()
	if g.pct(15) { // a bit more than there is
		rest = new(big.Int).Add(rest, nI(int64(g.r.Intn(300))))
	}
	k := g.tp()
	at := new(big.Int).Set(price)
	n := 2 + g.r.Intn(3)
	for i := 0; i < n && rest.Sign() > 0; i++ {
		a := rest
		if i < n-1 || g.pct(30) {
			a = new(big.Int).Add(g.randBelow(rest), nI(1))
			if a.Cmp(nI(100)) < 0 {
				a = nI(100)
			}
		}
		rest = new(big.Int).Sub(rest, a)
		e := &Ev{M: pick(g.r, "limit", "limit", "limit", "mm"), Who: g.user(), Pair: o.Pair, Price: enc(at), Amt: enc(a), Life: pick(g.r, int64(0), 0, 10000)}
		if e.Life > g.rec.cur.Par.Life {
			e.Life = g.rec.cur.Par.Life
		}
		d := nI(int64(g.r.Intn(3)))
		if o.Dir == "b" {
			e.Dir, e.Oc, e.Dd = "s", Coin{p.Base, enc(a)}, p.Quote
			at = clampPrice(new(big.Int).Sub(at, new(big.Int).Mul(d, tickGap(at, k))))
		} else {
			e.Dir, e.Oc, e.Dd = "b", Coin{p.Quote, enc(ceilMul(at, a))}, p.Base
			at = new(big.Int).Add(at, new(big.Int).Mul(d, tickGap(at, k)))
		}
		g.rec.do(e)
	}
}

// chooser gives kinds of events, as often as the profile says.
func (g *Gen) chooser() func() string {
	kinds := sortedKeys(g.p.W)
	tot := 0
	for _, k := range kinds {
		tot += g.p.W[k]
	}
	return func() string {
		x := g.r.Intn(tot)
		for _, k := range kinds {
			if x -= g.p.W[k]; x < 0 {
				return k
			}
		}
		return kinds[0]
	}
}

// run generates and executes one history.
func (g *Gen) run() {
	rec, r := g.rec, g.r
	choose := g.chooser()
	h, t := rec.cur.H, rec.cur.T
	nb := g.p.Blocks[0] + r.Intn(g.p.Blocks[1]-g.p.Blocks[0]+1)
	for b := 0; b < nb && !rec.halt; b++ {
		h++
		t += pick(r, int64(1000), 5000, 5000, 5000, 1, 60000, 3600000)
		rec.do(&Ev{M: "begin", H: h, T: t})
		if b == 0 {
			fee := map[string]Big{}
			for _, c := range rec.cur.Par.Pcf {
				fee[c.D] = c.A
			}
			rec.do(&Ev{M: "pair", Who: "u1", Base: g.den[0], Quote: g.den[1]})
			if len(g.den) > 2 && g.pct(40) {
				rec.do(&Ev{M: "pair", Who: "u2", Base: g.den[2], Quote: g.den[0]})
			}
			if !g.p.NoPool && g.pct(60) {
				k := "pool"
				if g.pct(g.p.Ranged) {
					k = "rpool"
				}
				rec.do(g.try(k, nil))
			}
		}
		for n := g.p.PerBlk[0] + r.Intn(g.p.PerBlk[1]-g.p.PerBlk[0]+1); n > 0; n-- {
			rec.do(g.try(choose(), choose))
		}
		if g.pct(g.p.Sweep) {
			g.sweep()
		}
		if g.pct(g.p.Obs / 2) {
			rec.observe(g)
		}
		if g.pct(g.p.Docs / 2) {
			g.docs(1 + r.Intn(6))
		}
		if g.p.Inv > 0 && g.pct(g.p.Inv) {
			rec.invariants(g, 3+r.Intn(4))
		}
		rec.do(&Ev{M: "end"})
		if rec.halt {
			return
		}
		if g.pct(g.p.Obs) {
			rec.observe(g)
		}
		if g.pct(g.p.Docs) {
			g.docs(1 + r.Intn(6))
		}
		if g.p.Inv > 0 && g.pct(g.p.Inv/2) {
			rec.invariants(g, 3+r.Intn(4))
		}
		if g.pct(g.p.Gen) {
			if g.pct(12) { // with limits that what is there exceeds
				par := rec.cur.Par
				par.Mmmax, par.Maxp = uint32(pick(r, 1, 1, 2, 5)), uint32(pick(r, 1, 2, 20))
				if g.pct(50) {
					par.Life = pick(r, par.Life, 0, 1000)
				}
				rec.do(&Ev{M: "params", Who: "gov", Par: &par})
			}
			rec.do(&Ev{M: "genesis"})
		}
	}
}
