package verifdrv

import (
	"encoding/json"
	"strings"
	"time"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"defund/x/dex/types"
)

// Doc is what a genesis document of the exchange says.
type Doc struct {
	Par    Par      `json:"par"`
	Lp     uint64   `json:"lp"`
	Ll     uint64   `json:"ll"`
	Pairs  []Pair   `json:"pairs"`
	Pools  []PoolR  `json:"pools"`
	Orders []OrderR `json:"orders"`
	Deps   []DepR   `json:"deps"`
	Wds    []WdR    `json:"wds"`
	MM     []MMR    `json:"mm"`
}

func (w *World) encDoc(g *types.GenesisState) *Doc {
	d := &Doc{Par: w.encPar(g.Params), Lp: g.LastPairId, Ll: g.LastPoolId, Pairs: []Pair{}, Pools: []PoolR{},
		Orders: []OrderR{}, Deps: []DepR{}, Wds: []WdR{}, MM: []MMR{}}
	for _, p := range g.Pairs {
		d.Pairs = append(d.Pairs, w.encPair(p))
	}
	for _, p := range g.Pools {
		d.Pools = append(d.Pools, w.encPool(p))
	}
	for _, o := range g.Orders {
		x := w.encOrder(o)
		if o.ExpireAt.IsZero() {
			x.Exp = -1
		}
		d.Orders = append(d.Orders, x)
	}
	for _, r := range g.DepositRequests {
		d.Deps = append(d.Deps, w.encDep(r))
	}
	for _, r := range g.WithdrawRequests {
		d.Wds = append(d.Wds, w.encWd(r))
	}
	for _, r := range g.NumMarketMakingOrdersRecords {
		d.MM = append(d.MM, MMR{w.nm(r.Orderer), r.PairId, r.NumMarketMakingOrders})
	}
	return d
}

type genesisMod interface {
	ExportGenesis(sdk.Context, codec.JSONCodec) json.RawMessage
	InitGenesis(sdk.Context, codec.JSONCodec, json.RawMessage)
}

func (w *World) export(c sdk.Context) json.RawMessage {
	return w.dex().(genesisMod).ExportGenesis(c, w.app.AppCodec())
}

// document validates a genesis document and starts the exchange with it, in a
// branch that is thrown away. It records what the document says and, when
// it is accepted, what the exchange then contains.
func (w *World) document(e *Ev) (string, X) {
	cdc := w.app.AppCodec()
	gs := &types.GenesisState{}
	bz := []byte(e.Doc)
	cdc.MustUnmarshalJSON(bz, gs)
	e.G, e.G2 = w.encDoc(gs), nil
	x := X{Vb: true, Sg: []string{}}
	c, _ := w.ctx.CacheContext()
	w.wipe(c)
	err, _ := guard(func() error { return w.dex().(module.HasGenesisBasics).ValidateGenesis(cdc, nil, bz) })
	x.Vb = err == nil
	if err == nil {
		err, x.Pan = guard(func() error {
			w.dex().(genesisMod).InitGenesis(c, cdc, bz)
			return nil
		})
	} else if e2, _ := guard(func() error { w.dex().(genesisMod).InitGenesis(c, cdc, bz); return nil }); e2 == nil {
		return "ok", x // imported although it is not valid
	}
	if err != nil {
		x.Err = trunc(err.Error(), 200)
		return "rej", x
	}
	back := &types.GenesisState{}
	cdc.MustUnmarshalJSON(w.export(c), back)
	e.G2 = w.encDoc(back)
	return "ok", x
}

// docs has the exchange judge its export, and documents that differ from it.
func (g *Gen) docs(n int) {
	w, r := g.rec.w, g.r
	cdc := w.app.AppCodec()
	for i := 0; i < n; i++ {
		gs := &types.GenesisState{}
		cdc.MustUnmarshalJSON(w.export(w.ctx), gs)
		g.fill(gs)
		for k := pick(r, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2); k > 0; k-- {
			g.mutate(gs)
		}
		g.rec.do(&Ev{M: "doc", Doc: string(cdc.MustMarshalJSON(gs))})
	}
}

func in[T any](g *Gen, xs []T) *T {
	if len(xs) == 0 {
		return nil
	}
	return &xs[g.r.Intn(len(xs))]
}

// fill adds requests to a document that has none.
func (g *Gen) fill(gs *types.GenesisState) {
	r := g.r
	u := g.rec.w.at("u1")
	q := in(g, gs.Pools)
	if q == nil {
		return
	}
	var pr types.Pair
	for _, p := range gs.Pairs {
		if p.Id == q.PairId {
			pr = p
		}
	}
	n := func() math.Int { return math.NewInt(int64(1 + r.Intn(100000))) }
	if g.pct(50) {
		d := types.DepositRequest{Id: q.LastDepositRequestId + 5, PoolId: q.Id, MsgHeight: 1 + int64(r.Intn(9)), Depositor: u,
			DepositCoins:   sdk.NewCoins(sdk.NewCoin(pr.BaseCoinDenom, n()), sdk.NewCoin(pr.QuoteCoinDenom, n())),
			MintedPoolCoin: sdk.NewCoin(q.PoolCoinDenom, math.NewInt(int64(r.Intn(3)))), Status: types.RequestStatus(1 + r.Intn(3))}
		if g.pct(50) {
			d.AcceptedCoins = sdk.NewCoins(sdk.NewCoin(pr.BaseCoinDenom, n()))
		}
		gs.DepositRequests = append(gs.DepositRequests, d)
	}
	if g.pct(50) {
		d := types.WithdrawRequest{Id: q.LastWithdrawRequestId + 5, PoolId: q.Id, MsgHeight: 1 + int64(r.Intn(9)), Withdrawer: u,
			PoolCoin: sdk.NewCoin(q.PoolCoinDenom, n()), Status: types.RequestStatus(1 + r.Intn(3))}
		if g.pct(50) {
			d.WithdrawnCoins = sdk.NewCoins(sdk.NewCoin(pr.BaseCoinDenom, n()), sdk.NewCoin(pr.QuoteCoinDenom, n()))
		}
		gs.WithdrawRequests = append(gs.WithdrawRequests, d)
	}
	if g.pct(30) {
		gs.NumMarketMakingOrdersRecords = append(gs.NumMarketMakingOrdersRecords,
			types.NumMMOrdersRecord{Orderer: g.rec.w.at("u9"), PairId: pr.Id, NumMarketMakingOrders: uint32(1 + r.Intn(9))})
	}
}

// mutate changes one thing in a document, mostly for the worse.
func (g *Gen) mutate(gs *types.GenesisState) {
	r := g.r
	neg, zero := math.NewInt(-1), math.ZeroInt()
	num := func() math.Int { return pick(r, neg, zero, math.NewInt(7)) }
	badAddr := func() string { return pick(r, "", "cosmos1bad", "nobody") }
	badDenom := func() string { return pick(r, "", "1x", "a", "zzz", g.den[0], g.den[1], "pool1", "pool2") }
	uid := func(last uint64) uint64 { return pick(r, 0, last+1, last+1, 1, last+77) }
	coins := func(cs sdk.Coins) sdk.Coins {
		cs = append(sdk.Coins{}, cs...)
		switch k := r.Intn(7); {
		case k == 0:
			return sdk.Coins{}
		case k == 1:
			return append(cs, sdk.Coin{Denom: "zzz", Amount: math.NewInt(3)})
		case k == 2:
			return sdk.Coins{{Denom: g.den[0], Amount: math.NewInt(5)}}
		case len(cs) == 0:
			return sdk.Coins{{Denom: badDenom(), Amount: math.NewInt(5)}}
		case k == 3:
			cs[r.Intn(len(cs))].Amount = num()
		case k == 4:
			cs[0], cs[len(cs)-1] = cs[len(cs)-1], cs[0]
		case k == 5:
			cs[r.Intn(len(cs))].Denom = badDenom()
		case k == 6:
			return append(cs, cs[0])
		}
		return cs
	}
	switch r.Intn(15) {
	case 0: // counters, order of entries, parameters
		switch r.Intn(6) {
		case 0:
			gs.LastPairId = pick(r, uid(gs.LastPairId), gs.LastPairId/2, max(1, gs.LastPairId)-1)
		case 1:
			gs.LastPoolId = pick(r, uid(gs.LastPoolId), max(1, gs.LastPoolId)-1)
		case 2:
			r.Shuffle(len(gs.Orders), func(i, j int) { gs.Orders[i], gs.Orders[j] = gs.Orders[j], gs.Orders[i] })
			r.Shuffle(len(gs.Pairs), func(i, j int) { gs.Pairs[i], gs.Pairs[j] = gs.Pairs[j], gs.Pairs[i] })
			r.Shuffle(len(gs.Pools), func(i, j int) { gs.Pools[i], gs.Pools[j] = gs.Pools[j], gs.Pools[i] })
		case 3:
			p := g.params(false)
			g.badParams(p)
			bz, _ := json.Marshal(p)
			if !strings.Contains(string(bz), "[9]") {
				gs.Params = g.rec.w.decPar(*p)
			}
		case 4:
			gs.Params.MaxPriceLimitRatio = math.LegacyNewDec(int64(r.Intn(3)))
		case 5:
			gs.Params.BatchSize = uint32(r.Intn(2))
		}
	case 1, 2:
		p := in(g, gs.Pairs)
		if p == nil {
			return
		}
		switch r.Intn(10) {
		case 0:
			p.Id = uid(gs.LastPairId)
		case 1:
			p.BaseCoinDenom = badDenom()
		case 2:
			p.QuoteCoinDenom = badDenom()
		case 3:
			p.EscrowAddress = badAddr()
		case 4, 5:
			d := math.LegacyNewDecFromInt(num())
			p.LastPrice = &d
		case 6:
			p.CurrentBatchId = uint64(r.Intn(2))
		case 7:
			gs.Pairs = append(gs.Pairs, *p)
		case 8:
			p.CurrentBatchId = uint64(1 + r.Intn(int(p.CurrentBatchId)))
		case 9:
			q := *p
			q.Id = gs.LastPairId + uint64(r.Intn(2))
			gs.Pairs = append(gs.Pairs, q)
		}
	case 3, 4:
		p := in(g, gs.Pools)
		if p == nil {
			return
		}
		switch r.Intn(8) {
		case 0:
			p.Id = uid(gs.LastPoolId)
		case 1:
			p.PairId = uid(gs.LastPairId)
		case 2:
			p.ReserveAddress = badAddr()
		case 3:
			p.PoolCoinDenom = badDenom()
		case 4:
			gs.Pools = append(gs.Pools, *p)
		case 5:
			p.Type = types.PoolTypeBasic
		case 6:
			p.Type = types.PoolTypeRanged
		case 7:
			p.Creator = badAddr()
		}
	case 5, 6:
		p := in(g, gs.DepositRequests)
		if p == nil {
			return
		}
		switch r.Intn(11) {
		case 0:
			p.Id = uint64(r.Intn(2))
		case 1:
			p.PoolId = uid(gs.LastPoolId)
		case 2:
			p.MsgHeight = 0
		case 3:
			p.Depositor = badAddr()
		case 4, 5:
			p.DepositCoins = coins(p.DepositCoins)
		case 6:
			p.AcceptedCoins = coins(p.AcceptedCoins)
		case 7:
			p.MintedPoolCoin.Denom = badDenom()
		case 8:
			p.MintedPoolCoin.Amount = num()
		case 9:
			p.Status = types.RequestStatus(r.Intn(5))
		case 10:
			gs.DepositRequests = append(gs.DepositRequests, *p)
		}
	case 7, 8:
		p := in(g, gs.WithdrawRequests)
		if p == nil {
			return
		}
		switch r.Intn(9) {
		case 0:
			p.Id = uint64(r.Intn(2))
		case 1:
			p.PoolId = uid(gs.LastPoolId)
		case 2:
			p.MsgHeight = 0
		case 3:
			p.Withdrawer = badAddr()
		case 4:
			p.PoolCoin.Amount = num()
		case 5:
			p.PoolCoin.Denom = badDenom()
		case 6:
			p.WithdrawnCoins = coins(p.WithdrawnCoins)
		case 7:
			p.Status = types.RequestStatus(r.Intn(5))
		case 8:
			gs.WithdrawRequests = append(gs.WithdrawRequests, *p)
		}
	case 9, 11, 12, 13, 14:
		p := in(g, gs.Orders)
		if p == nil {
			return
		}
		switch r.Intn(20) {
		case 0:
			p.Id = uint64(r.Intn(2))
		case 1:
			p.PairId = uid(gs.LastPairId)
		case 2:
			p.MsgHeight = 0
		case 3:
			p.Orderer = badAddr()
		case 4:
			p.Direction = types.OrderDirection(pick(r, 0, 1, 2, 3))
		case 5:
			p.OfferCoin.Amount = num()
		case 6:
			p.OfferCoin.Denom = badDenom()
		case 7:
			p.RemainingOfferCoin.Amount = num()
		case 8:
			p.RemainingOfferCoin.Denom = badDenom()
		case 9:
			p.ReceivedCoin.Amount = num()
		case 10:
			p.ReceivedCoin.Denom = badDenom()
		case 11:
			p.Price = math.LegacyNewDecFromInt(num())
		case 12:
			p.Amount = num()
		case 13:
			p.OpenAmount = num()
		case 14:
			p.BatchId = pick(r, 0, 1, p.BatchId+1, p.BatchId+9)
		case 15:
			p.ExpireAt = time.Time{}
		case 16:
			p.Status = types.OrderStatus(r.Intn(9))
		case 17, 18:
			gs.Orders = append(gs.Orders, *p)
		case 19:
			o := p.OfferCoin.Denom
			p.OfferCoin.Denom, p.RemainingOfferCoin.Denom, p.ReceivedCoin.Denom = p.ReceivedCoin.Denom, p.ReceivedCoin.Denom, o
		}
	case 10:
		p := in(g, gs.NumMarketMakingOrdersRecords)
		if p == nil {
			return
		}
		switch r.Intn(3) {
		case 0:
			p.NumMarketMakingOrders = uint32(r.Intn(2))
		case 1:
			p.Orderer = badAddr()
		case 2:
			p.PairId = uid(gs.LastPairId)
		}
	}
}
