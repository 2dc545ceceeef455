package verifdrv

import (
	"math/rand"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/types/query"

	"defund/x/dex/types"
)

type mm = map[string]any

// PoolQ is a pool as queries show it.
type PoolQ struct {
	ID      uint64 `json:"id"`
	Pair    uint64 `json:"pair"`
	Typ     string `json:"typ"`
	Creator string `json:"creator"`
	Res     string `json:"res"`
	Pcd     string `json:"pcd"`
	Min     []Big  `json:"min"`
	Max     []Big  `json:"max"`
	Ldep    uint64 `json:"ldep"`
	Lwd     uint64 `json:"lwd"`
	Dis     bool   `json:"dis"`
	Sup     Big    `json:"sup"`
	Price   []Big  `json:"price"`
	Base    Coin   `json:"base"`
	Quote   Coin   `json:"quote"`
}

func (w *World) encPoolQ(p types.PoolResponse) PoolQ {
	return PoolQ{p.Id, p.PairId, poolTyp[p.Type], w.nm(p.Creator), w.nm(p.ReserveAddress), p.PoolCoinDenom, optD(p.MinPrice), optD(p.MaxPrice),
		p.LastDepositRequestId, p.LastWithdrawRequestId, p.Disabled, encI(p.PoolCoinSupply), optD(p.Price),
		encC(p.Balances.BaseCoin), encC(p.Balances.QuoteCoin)}
}

// ask runs a query; a panic is a result of its own.
func ask(q mm, f func() error) mm {
	err, pan := guard(f)
	switch {
	case pan:
		q["r"] = "panic"
	case err != nil:
		q["r"] = "rej"
	default:
		q["r"] = "ok"
	}
	return q
}

// list runs a listing as a whole, page by page, and from an offset.
func list[T, E any](g *rand.Rand, q mm, get func(*query.PageRequest) ([]T, *query.PageResponse, error), enc func(T) E) mm {
	encs := func(ts []T) []E {
		r := []E{}
		for _, t := range ts {
			r = append(r, enc(t))
		}
		return r
	}
	var full []T
	ask(q, func() (err error) {
		full, _, err = get(&query.PageRequest{Limit: 1 << 20})
		return
	})
	if q["r"] != "ok" {
		return q
	}
	n := len(full)
	q["full"] = encs(full)
	lim := uint64(1 + g.Intn(max(3, min(8, n))))
	pages, bad := []any{}, false
	var key []byte
	for k := 0; k < n+3; k++ {
		var ts []T
		var pr *query.PageResponse
		s := ask(mm{}, func() (err error) {
			ts, pr, err = get(&query.PageRequest{Key: key, Limit: lim})
			return
		})
		if s["r"] != "ok" {
			bad = true
			break
		}
		pages = append(pages, encs(ts))
		if key = pr.NextKey; key == nil {
			break
		}
	}
	q["lim"], q["pages"], q["walked"] = lim, pages, !bad && key == nil
	off := uint64(g.Intn(n + 2))
	var ts []T
	var pr *query.PageResponse
	s := ask(mm{}, func() (err error) {
		ts, pr, err = get(&query.PageRequest{Offset: off, Limit: lim, CountTotal: true})
		return
	})
	if s["r"] != "ok" || pr == nil {
		q["walked"] = false
		pr = &query.PageResponse{}
	}
	q["off"], q["page"], q["tot"] = off, encs(ts), pr.Total
	s = ask(mm{}, func() (err error) {
		ts, _, err = get(&query.PageRequest{Limit: 1 << 20, Reverse: true})
		return
	})
	q["rev"] = encs(ts)
	return q
}

// observe asks the exchange about itself and records the answers.
func (r *Rec) observe(g *Gen) {
	w, rnd, st := r.w, g.r, r.cur
	c := types.NewQueryClient(&baseapp.QueryServiceTestHelper{GRPCQueryRouter: w.app.GRPCQueryRouter(), Ctx: w.ctx})
	ctx := w.ctx
	qs := []any{}
	add := func(q mm) { qs = append(qs, q) }
	id := func(last int) uint64 { return uint64(rnd.Intn(last + 3)) } // 0 .. last+2
	np, nq := len(st.Pairs), len(st.Pools)
	near := func(last uint64, n int) uint64 { // an id that is used, or one next to those
		if rnd.Intn(12) == 0 {
			return id(2)
		}
		return last - uint64(n) + id(n)
	}
	pid := func() uint64 { return near(st.Lp, np) }
	qid := func() uint64 { return near(st.Ll, nq) }
	oid := func(p uint64) uint64 {
		for _, x := range st.Pairs {
			if x.ID == p {
				return near(x.Lo, min(int(x.Lo), 7))
			}
		}
		return id(6)
	}
	user := func() string {
		return pick(rnd, "u1", "u2", "u3", "u4", "u1", "u2", "fee", "u9", "nobody", "")
	}
	denom := func() string {
		return pick(rnd, "aaa", "bbb", "ccc", "ddd", "aaa", "bbb", "aaaa", "zzz", "1x", "", long1, long2)
	}

	add(func() mm {
		q := mm{"q": "params"}
		return ask(q, func() error {
			x, err := c.Params(ctx, &types.QueryParamsRequest{})
			if err == nil {
				q["par"] = w.encPar(x.Params)
			}
			return err
		})
	}())

	pairs := func(ds ...string) {
		if ds == nil {
			ds = []string{}
		}
		add(list(rnd, mm{"q": "pairs", "ds": ds}, func(p *query.PageRequest) ([]types.Pair, *query.PageResponse, error) {
			x, err := c.Pairs(ctx, &types.QueryPairsRequest{Denoms: ds, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return x.Pairs, x.Pagination, nil
		}, w.encPair))
	}
	pairs()
	pairs(denom())
	pairs(denom(), denom())
	if st.Pairs != nil && np > 0 {
		p := st.Pairs[rnd.Intn(np)]
		pairs(p.Base)
		pairs(p.Quote)
		pairs(p.Base, p.Quote)
		pairs(p.Quote, p.Base)
	}
	if rnd.Intn(5) == 0 {
		pairs("aaa", "bbb", "ccc")
	}

	pair := func(i uint64) {
		q := mm{"q": "pair", "id": i}
		add(ask(q, func() error {
			x, err := c.Pair(ctx, &types.QueryPairRequest{PairId: i})
			if err == nil {
				q["x"] = w.encPair(x.Pair)
			}
			return err
		}))
	}
	pair(pid())
	pair(pid())

	pools := func(p uint64, dis string) {
		add(list(rnd, mm{"q": "pools", "pair": p, "dis": dis}, func(pr *query.PageRequest) ([]types.PoolResponse, *query.PageResponse, error) {
			x, err := c.Pools(ctx, &types.QueryPoolsRequest{PairId: p, Disabled: dis, Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return x.Pools, x.Pagination, nil
		}, w.encPoolQ))
	}
	dis := func() string { return pick(rnd, "", "", "true", "true", "false", "false", "maybe") }
	pools(0, "")
	pools(0, dis())
	pools(pid(), dis())
	pools(1, dis())

	pool := func(q mm, f func() (*types.QueryPoolResponse, error)) {
		add(ask(q, func() error {
			x, err := f()
			if err == nil {
				q["x"] = w.encPoolQ(x.Pool)
			}
			return err
		}))
	}
	byID := func(i uint64) {
		pool(mm{"q": "pool", "id": i}, func() (*types.QueryPoolResponse, error) {
			return c.Pool(ctx, &types.QueryPoolRequest{PoolId: i})
		})
	}
	byID(qid())
	byID(qid())
	byRes := func(a string) {
		pool(mm{"q": "poolbyres", "a": a}, func() (*types.QueryPoolResponse, error) {
			return c.PoolByReserveAddress(ctx, &types.QueryPoolByReserveAddressRequest{ReserveAddress: w.at(a)})
		})
	}
	byDen := func(d string) {
		pool(mm{"q": "poolbyden", "d": d}, func() (*types.QueryPoolResponse, error) {
			return c.PoolByPoolCoinDenom(ctx, &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: d})
		})
	}
	for k := 0; k < 2 && nq > 0; k++ {
		q := st.Pools[rnd.Intn(nq)]
		byRes(q.Res)
		byDen(q.Pcd)
	}
	byRes(user())
	byDen(pick(rnd, "aaa", "pool", "pool39", "pool40", "", "poolx"))

	deps := func(p uint64) {
		add(list(rnd, mm{"q": "deps", "pool": p}, func(pr *query.PageRequest) ([]types.DepositRequest, *query.PageResponse, error) {
			x, err := c.DepositRequests(ctx, &types.QueryDepositRequestsRequest{PoolId: p, Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return x.DepositRequests, x.Pagination, nil
		}, w.encDep))
	}
	wds := func(p uint64) {
		add(list(rnd, mm{"q": "wds", "pool": p}, func(pr *query.PageRequest) ([]types.WithdrawRequest, *query.PageResponse, error) {
			x, err := c.WithdrawRequests(ctx, &types.QueryWithdrawRequestsRequest{PoolId: p, Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return x.WithdrawRequests, x.Pagination, nil
		}, w.encWd))
	}
	dep := func(p, i uint64) {
		q := mm{"q": "dep", "pool": p, "id": i}
		add(ask(q, func() error {
			x, err := c.DepositRequest(ctx, &types.QueryDepositRequestRequest{PoolId: p, Id: i})
			if err == nil {
				q["x"] = w.encDep(x.DepositRequest)
			}
			return err
		}))
	}
	wd := func(p, i uint64) {
		q := mm{"q": "wd", "pool": p, "id": i}
		add(ask(q, func() error {
			x, err := c.WithdrawRequest(ctx, &types.QueryWithdrawRequestRequest{PoolId: p, Id: i})
			if err == nil {
				q["x"] = w.encWd(x.WithdrawRequest)
			}
			return err
		}))
	}
	deps(qid())
	wds(qid())
	dep(qid(), id(2))
	wd(qid(), id(2))
	if n := len(st.Deps); n > 0 {
		d := st.Deps[rnd.Intn(n)]
		deps(d.Pool)
		dep(d.Pool, d.ID)
	}
	if n := len(st.Wds); n > 0 {
		d := st.Wds[rnd.Intn(n)]
		wds(d.Pool)
		wd(d.Pool, d.ID)
	}

	page := func(x *types.QueryOrdersResponse, err error) ([]types.Order, *query.PageResponse, error) {
		if err != nil {
			return nil, nil, err
		}
		return x.Orders, x.Pagination, nil
	}
	orders := func(p uint64) {
		add(list(rnd, mm{"q": "orders", "pair": p}, func(pr *query.PageRequest) ([]types.Order, *query.PageResponse, error) {
			return page(c.Orders(ctx, &types.QueryOrdersRequest{PairId: p, Pagination: pr}))
		}, w.encOrder))
	}
	byOrderer := func(u string, p uint64) {
		add(list(rnd, mm{"q": "byorderer", "who": u, "pair": p}, func(pr *query.PageRequest) ([]types.Order, *query.PageResponse, error) {
			return page(c.OrdersByOrderer(ctx, &types.QueryOrdersByOrdererRequest{Orderer: w.at(u), PairId: p, Pagination: pr}))
		}, w.encOrder))
	}
	order := func(p, i uint64) {
		q := mm{"q": "order", "pair": p, "id": i}
		add(ask(q, func() error {
			x, err := c.Order(ctx, &types.QueryOrderRequest{PairId: p, Id: i})
			if err == nil {
				q["x"] = w.encOrder(x.Order)
			}
			return err
		}))
	}
	orders(pid())
	orders(1)
	byOrderer(user(), 0)
	byOrderer(user(), pid())
	p := pid()
	order(p, oid(p))
	if n := len(st.Orders); n > 0 {
		o := st.Orders[rnd.Intn(n)]
		order(o.Pair, o.ID)
		byOrderer(o.Who, 0)
		byOrderer(o.Who, o.Pair)
	}

	num := func(u string, p uint64) {
		q := mm{"q": "nummm", "who": u, "pair": p}
		add(ask(q, func() error {
			x, err := c.NumMMOrders(ctx, &types.QueryNumMMOrdersRequest{Orderer: w.at(u), PairId: p})
			if err == nil {
				q["n"] = x.NumMarketMakingOrders
			}
			return err
		}))
	}
	num(user(), pid())
	if n := len(st.MM); n > 0 {
		m := st.MM[rnd.Intn(n)]
		num(m.U, m.Pair)
	}

	books := func(ps []uint64, pows []uint32, n uint32) {
		if ps == nil {
			ps = []uint64{}
		}
		if pows == nil {
			pows = []uint32{}
		}
		q := mm{"q": "books", "pairs": ps, "pows": pows, "n": n}
		add(ask(q, func() error {
			x, err := c.OrderBooks(ctx, &types.QueryOrderBooksRequest{PairIds: ps, PriceUnitPowers: pows, NumTicks: n})
			if err != nil {
				return err
			}
			bs := []any{}
			for _, p := range x.Pairs {
				obs := []any{}
				ticks := func(ts []types.OrderBookTickResponse) []any {
					r := []any{}
					for _, t := range ts {
						r = append(r, []Big{encD(t.Price), encI(t.UserOrderAmount), encI(t.PoolOrderAmount)})
					}
					return r
				}
				for _, b := range p.OrderBooks {
					obs = append(obs, mm{"unit": encD(b.PriceUnit), "sells": ticks(b.Sells), "buys": ticks(b.Buys)})
				}
				bs = append(bs, mm{"pair": p.PairId, "base": encD(p.BasePrice), "obs": obs})
			}
			q["x"] = bs
			return nil
		}))
	}
	ticks := func() uint32 { return pick(rnd, uint32(1), 2, 3, 5, 10, 20, 1000) }
	pows := func() []uint32 {
		return pick(rnd, nil, []uint32{0}, []uint32{0, 1, 2}, []uint32{3, 0}, []uint32{2}, []uint32{1, 4})
	}
	wide := st.Par.Ratio.big().Cmp(raw(8, 1).big()) > 0 && nq > 0 // books of very many prices
	for _, p := range st.Pairs {
		if wide && rnd.Intn(8) > 0 {
			continue
		}
		books([]uint64{p.ID}, pows(), ticks())
	}
	some := []uint64{}
	for _, p := range st.Pairs {
		if len(p.Last) > 0 && !wide {
			some = append(some, p.ID)
		}
	}
	books(some, pows(), ticks())
	switch rnd.Intn(6) {
	case 0:
		books([]uint64{1, 1}, nil, 5)
	case 1:
		books([]uint64{pid()}, []uint32{1, 1}, 5)
	case 2:
		books([]uint64{1}, nil, 0)
	case 3:
		books([]uint64{st.Lp, st.Lp + 1}, nil, 3)
	}
	r.line(&Ev{M: "obs", Qs: qs}, "ok", X{Sg: []string{}}, true)
}
