package verifdrv

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/keeper"
	"defund/x/dex/types"
)

// alarms collects the invariants that the exchange registers.
type alarms struct {
	routes []string
	invs   []sdk.Invariant
}

func (a *alarms) RegisterRoute(_, route string, inv sdk.Invariant) {
	a.routes, a.invs = append(a.routes, route), append(a.invs, inv)
}

// ring asks every invariant; each answers whether it is broken.
func (w *World) ring() mm {
	a := &alarms{}
	keeper.RegisterInvariants(a, w.app.DexKeeper)
	on := []string{}
	for i, inv := range a.invs {
		err, pan := guard(func() error {
			if _, broken := inv(w.ctx); broken {
				on = append(on, a.routes[i])
			}
			return nil
		})
		if pan {
			on = append(on, a.routes[i]+" "+trunc(err.Error(), 80))
		}
	}
	all := false
	_, pan := guard(func() error { _, all = keeper.AllInvariants(w.app.DexKeeper)(w.ctx); return nil })
	return mm{"on": on, "all": all, "pan": pan}
}

// tamper damages what the exchange keeps, in ways that messages cannot.
func (g *Gen) tamper(w *World) {
	r, k, st := g.r, w.app.DexKeeper, g.rec.cur
	switch r.Intn(11) {
	case 10: // the coins of a pool vanish, all of them or almost
		if len(st.Pools) == 0 {
			return
		}
		q := pick(r, st.Pools...)
		spare := r.Intn(3) == 0
		for _, who := range sortedKeys(st.Bal) {
			n := st.Bal[who][q.Pcd].big()
			if n != nil && spare {
				n.Sub(n, big.NewInt(1))
				spare = false
			}
			if n == nil || n.Sign() <= 0 {
				continue
			}
			cs := sdk.NewCoins(sdk.NewCoin(q.Pcd, math.NewIntFromBigInt(n)))
			_, _ = guard(func() error {
				if err := w.app.BankKeeper.SendCoinsFromAccountToModule(w.ctx, w.acc(who), types.ModuleName, cs); err != nil {
					return err
				}
				return w.app.BankKeeper.BurnCoins(w.ctx, types.ModuleName, cs)
			})
		}
	case 0, 1, 2, 3: // coins vanish from an escrow account: all the spare ones, one more, or any number
		from := "gesc"
		if len(st.Pairs) > 0 && r.Intn(3) > 0 {
			from = pick(r, st.Pairs...).Esc
		}
		need := map[string]*big.Int{}
		add := func(d string, n Big) {
			if need[d] == nil {
				need[d] = new(big.Int)
			}
			need[d].Add(need[d], n.big())
		}
		withC := r.Intn(2) == 0
		if from == "gesc" {
			for _, d := range st.Deps {
				if d.St == "new" {
					for _, c := range d.Coins {
						add(c.D, c.A)
					}
				}
			}
			for _, d := range st.Wds {
				if d.St == "new" && withC {
					add(d.Pcd, d.Pc)
				}
			}
		} else {
			for _, o := range st.Orders {
				if fmt.Sprint("esc", o.Pair) == from && (o.St == "new" || o.St == "open" || o.St == "part") {
					add(o.Od, o.Rem)
				}
			}
		}
		ds := sortedKeys(st.Bal[from])
		if len(ds) == 0 {
			return
		}
		d := pick(r, ds...)
		have := st.Bal[from][d].big()
		n := new(big.Int).Set(have)
		if need[d] != nil {
			n.Sub(n, need[d])
		}
		switch r.Intn(5) {
		case 0:
		case 1, 2:
			n.Add(n, big.NewInt(1))
		case 3:
			n = g.randBelow(have)
		case 4:
			n.Set(have)
		}
		if n.Sign() > 0 && n.Cmp(have) <= 0 {
			_ = w.app.BankKeeper.SendCoins(w.ctx, w.acc(from), w.acc("u1"), sdk.NewCoins(sdk.NewCoin(d, math.NewIntFromBigInt(n))))
		}
	case 4, 5: // a wrong number of market making orders
		u, pair := g.user(), uint64(1+r.Intn(3))
		if len(st.MM) > 0 && r.Intn(5) > 0 {
			m := pick(r, st.MM...)
			u, pair = m.U, m.Pair
		}
		n := k.GetNumMMOrders(w.ctx, w.acc(u), pair)
		switch r.Intn(5) {
		case 0:
			n++
		case 1:
			n--
		case 2:
			n = 0
		case 3:
			k.DeleteNumMMOrders(w.ctx, w.acc(u), pair)
			return
		case 4:
			pair = pick(r, pair+1, 1, 2)
		}
		k.SetNumMMOrders(w.ctx, w.acc(u), pair, n)
	case 6: // the status of a pool
		if len(st.Pools) == 0 {
			return
		}
		for _, q := range st.Pools {
			if p, ok := k.GetPool(w.ctx, q.ID); ok && r.Intn(2) == 0 {
				p.Disabled = r.Intn(2) == 0
				k.SetPool(w.ctx, p)
			}
		}
	case 7: // the status or the number of an order
		if len(st.Orders) == 0 {
			return
		}
		q := pick(r, st.Orders...)
		o, ok := k.GetOrder(w.ctx, q.Pair, q.ID)
		if !ok {
			return
		}
		switch r.Intn(3) {
		case 0:
			o.RemainingOfferCoin.Amount = o.RemainingOfferCoin.Amount.MulRaw(int64(r.Intn(4)))
		default:
			o.Status = types.OrderStatus(1 + r.Intn(6))
		}
		k.SetOrder(w.ctx, o)
	case 8: // the status of a request
		if len(st.Deps) > 0 && r.Intn(2) == 0 {
			q := pick(r, st.Deps...)
			if d, ok := k.GetDepositRequest(w.ctx, q.Pool, q.ID); ok {
				d.Status = types.RequestStatus(1 + r.Intn(3))
				k.SetDepositRequest(w.ctx, d)
			}
		} else if len(st.Wds) > 0 {
			q := pick(r, st.Wds...)
			if d, ok := k.GetWithdrawRequest(w.ctx, q.Pool, q.ID); ok {
				d.Status = types.RequestStatus(1 + r.Intn(3))
				k.SetWithdrawRequest(w.ctx, d)
			}
		}
	case 9: // coins arrive in an escrow account
		ds := sortedKeys(st.Bal["u1"])
		to := pick(r, "gesc", "esc1", "res1")
		if len(ds) > 0 {
			d := pick(r, ds...)
			if n := g.randBelow(st.Bal["u1"][d].big()); n.Sign() > 0 {
				_ = w.app.BankKeeper.SendCoins(w.ctx, w.acc("u1"), w.acc(to), sdk.NewCoins(sdk.NewCoin(d, math.NewIntFromBigInt(n))))
			}
		}
	}
}

// invariants asks the invariants about the state as it is, and about damaged
// copies of it.
func (r *Rec) invariants(g *Gen, n int) {
	w, ctx := r.w, r.w.ctx
	vs := []mm{{"a": w.ring(), "s": []any{}}}
	for ; n > 0; n-- {
		w.ctx, _ = ctx.CacheContext()
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			g.tamper(w)
		}
		vs = append(vs, mm{"a": w.ring(), "s": []any{w.dump()}})
	}
	w.ctx = ctx
	r.line(&Ev{M: "inv", U: vs}, "ok", X{Sg: []string{}}, true)
}
