package verifdrv

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"cosmossdk.io/core/appmodule"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"defund/app"
	dextypes "defund/x/dex/types"
)

// Ev is one event of a trace.
type Ev struct {
	M     string   `json:"m"`
	Who   string   `json:"who"`
	Base  string   `json:"base"`
	Quote string   `json:"quote"`
	Pair  uint64   `json:"pair"`
	Pool  uint64   `json:"pool"`
	ID    uint64   `json:"id"`
	Coins []Coin   `json:"coins"`
	Pc    Coin     `json:"pc"`
	Oc    Coin     `json:"oc"`
	Dd    string   `json:"dd"`
	Dir   string   `json:"dir"`
	Price Big      `json:"price"`
	Amt   Big      `json:"amt"`
	Life  int64    `json:"life"`
	Min   Big      `json:"min"`
	Max   Big      `json:"max"`
	Ini   Big      `json:"ini"`
	Pairs []uint64 `json:"pairs"`
	Par   *Par     `json:"par"`
	H     int64    `json:"h"`
	T     int64    `json:"t"`
	To    string   `json:"to"`
	// init
	Fund  map[string][]Coin `json:"fund"`
	Chain bool              `json:"chain"` // a chain of two nodes
	Lp    uint64            `json:"lp"`
	Ll    uint64            `json:"ll"`
	Gp    []Pair            `json:"gp"` // pairs of the genesis state
	// blocks of a chain
	Txs []*Tx    `json:"txs"`
	How []string `json:"how"`
	// genesis documents, what they say, and what is there after their import
	Doc string `json:"doc"`
	G   *Doc   `json:"-"`
	G2  *Doc   `json:"-"`
	// answers of queries and invariants (recorded, never read back)
	Qs []any `json:"qs"`
	U  any   `json:"vs"`
}

func cs(c []Coin) []Coin {
	if c == nil {
		return []Coin{}
	}
	return c
}

func (e *Ev) MarshalJSON() ([]byte, error) {
	m := map[string]any{"m": e.M}
	who := func() { m["who"] = e.Who }
	order := func() {
		who()
		m["pair"], m["dir"], m["oc"], m["dd"], m["amt"], m["life"] = e.Pair, e.Dir, e.Oc, e.Dd, e.Amt, e.Life
	}
	switch e.M {
	case "init":
		gp := e.Gp
		if gp == nil {
			gp = []Pair{}
		}
		if e.Chain {
			m["chain"] = true
		}
		m["h"], m["t"], m["par"], m["fund"], m["lp"], m["ll"], m["gp"] = e.H, e.T, e.Par, e.Fund, e.Lp, e.Ll, gp
	case "begin":
		m["h"], m["t"] = e.H, e.T
	case "end", "genesis":
	case "block":
		txs, how := e.Txs, e.How
		if txs == nil {
			txs = []*Tx{}
		}
		if how == nil {
			how = []string{}
		}
		m["h"], m["t"], m["txs"], m["how"] = e.H, e.T, txs, how
	case "doc":
		m["doc"], m["g"], m["g2"] = e.Doc, e.G, []*Doc{}
		if e.G2 != nil {
			m["g2"] = []*Doc{e.G2}
		}
	case "obs":
		m["qs"] = e.Qs
	case "inv":
		m["vs"] = e.U
	case "det":
	case "pair":
		who()
		m["base"], m["quote"] = e.Base, e.Quote
	case "pool":
		who()
		m["pair"], m["coins"] = e.Pair, cs(e.Coins)
	case "rpool":
		who()
		m["pair"], m["coins"], m["min"], m["max"], m["ini"] = e.Pair, cs(e.Coins), e.Min, e.Max, e.Ini
	case "deposit":
		who()
		m["pool"], m["coins"] = e.Pool, cs(e.Coins)
	case "withdraw":
		who()
		m["pool"], m["pc"] = e.Pool, e.Pc
	case "limit", "mm":
		order()
		m["price"] = e.Price
	case "market":
		order()
	case "cancel":
		who()
		m["pair"], m["id"] = e.Pair, e.ID
	case "cancelall":
		who()
		p := e.Pairs
		if p == nil {
			p = []uint64{}
		}
		m["pairs"] = p
	case "params":
		who()
		m["par"] = e.Par
	case "send":
		who()
		m["to"], m["coins"] = e.To, cs(e.Coins)
	default:
		return nil, fmt.Errorf("event %q", e.M)
	}
	return json.Marshal(m)
}

// X is what is observed about an event besides the state.
type X struct {
	Vb  bool     `json:"vb"`  // stateless validation accepted
	Sg  []string `json:"sg"`  // required signers
	Gas uint64   `json:"gas"` // gas consumed
	Pan bool     `json:"pan"` // the handler panicked
	Err string   `json:"err"`
	Dig string   `json:"dig"` // comparison of stores: "same", or what differs
	evs string   // hash of the events emitted
}

// hashEvents digests the events of a context, in their order.
func hashEvents(c sdk.Context) string {
	h := sha256.New()
	for _, e := range c.EventManager().Events() {
		fmt.Fprintf(h, "%s\n", e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(h, " %q=%q\n", a.Key, a.Value)
		}
	}
	return hex.EncodeToString(h.Sum(nil)[:6])
}

func (w *World) msg(e *Ev) sdk.Msg {
	dir := dextypes.OrderDirectionUnspecified
	switch e.Dir {
	case "b":
		dir = dextypes.OrderDirectionBuy
	case "s":
		dir = dextypes.OrderDirectionSell
	case "":
	default:
		dir = dextypes.OrderDirection(7)
	}
	life := time.Duration(e.Life) * time.Millisecond
	switch e.M {
	case "pair":
		return &dextypes.MsgCreatePair{Creator: w.at(e.Who), BaseCoinDenom: e.Base, QuoteCoinDenom: e.Quote}
	case "pool":
		return &dextypes.MsgCreatePool{Creator: w.at(e.Who), PairId: e.Pair, DepositCoins: decCs(e.Coins)}
	case "rpool":
		return &dextypes.MsgCreateRangedPool{Creator: w.at(e.Who), PairId: e.Pair, DepositCoins: decCs(e.Coins),
			MinPrice: e.Min.dec(), MaxPrice: e.Max.dec(), InitialPrice: e.Ini.dec()}
	case "deposit":
		return &dextypes.MsgDeposit{Depositor: w.at(e.Who), PoolId: e.Pool, DepositCoins: decCs(e.Coins)}
	case "withdraw":
		return &dextypes.MsgWithdraw{Withdrawer: w.at(e.Who), PoolId: e.Pool, PoolCoin: e.Pc.sdk()}
	case "limit":
		return &dextypes.MsgLimitOrder{Orderer: w.at(e.Who), PairId: e.Pair, Direction: dir, OfferCoin: e.Oc.sdk(),
			DemandCoinDenom: e.Dd, Price: e.Price.dec(), Amount: e.Amt.int(), OrderLifespan: life}
	case "mm":
		return &dextypes.MsgMMOrder{Orderer: w.at(e.Who), PairId: e.Pair, Direction: dir, OfferCoin: e.Oc.sdk(),
			DemandCoinDenom: e.Dd, Price: e.Price.dec(), Amount: e.Amt.int(), OrderLifespan: life}
	case "market":
		return &dextypes.MsgMarketOrder{Orderer: w.at(e.Who), PairId: e.Pair, Direction: dir, OfferCoin: e.Oc.sdk(),
			DemandCoinDenom: e.Dd, Amount: e.Amt.int(), OrderLifespan: life}
	case "cancel":
		return &dextypes.MsgCancelOrder{Orderer: w.at(e.Who), PairId: e.Pair, OrderId: e.ID}
	case "cancelall":
		return &dextypes.MsgCancelAllOrders{Orderer: w.at(e.Who), PairIds: e.Pairs}
	case "params":
		return &dextypes.MsgUpdateParams{Authority: w.at(e.Who), Params: w.decPar(*e.Par)}
	}
	return nil
}

func guard(f func() error) (err error, pan bool) {
	defer func() {
		if r := recover(); r != nil {
			err, pan = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

func (w *World) dex() any { return w.app.ModuleManager.Modules[dextypes.ModuleName] }

// block runs a begin or end blocker; a failure leaves the state alone.
func (w *World) block(f func(ctx sdk.Context) error) (string, X) {
	c, write := w.ctx.CacheContext()
	c = c.WithGasMeter(storetypes.NewInfiniteGasMeter()).WithEventManager(sdk.NewEventManager())
	err, pan := guard(func() error { return f(c) })
	x := X{Vb: true, Sg: []string{}, Pan: pan}
	if err != nil {
		x.Err = trunc(err.Error(), 200)
		return "halt", x
	}
	x.Gas, x.evs = c.GasMeter().GasConsumed(), hashEvents(c)
	write()
	return "ok", x
}

// exec runs one event on the real application.
func (w *World) exec(e *Ev) (string, X) {
	switch e.M {
	case "begin":
		w.ctx = w.ctx.WithBlockHeight(e.H).WithBlockTime(epoch.Add(time.Duration(e.T) * time.Millisecond))
		return w.block(func(c sdk.Context) error { return w.dex().(appmodule.HasBeginBlocker).BeginBlock(c) })
	case "end":
		return w.block(func(c sdk.Context) error { return w.dex().(appmodule.HasEndBlocker).EndBlock(c) })
	case "genesis":
		before := w.entries()
		r, x := w.block(w.roundtrip)
		x.Dig = diffEntries(before, w.entries())
		return r, x
	case "doc":
		return w.document(e)
	case "block":
		return w.runBlock(e)
	case "send":
		c, write := w.ctx.CacheContext()
		err, pan := guard(func() error {
			return w.app.BankKeeper.SendCoins(c, w.acc(e.Who), w.acc(e.To), decCs(e.Coins))
		})
		x := X{Vb: true, Sg: []string{}, Pan: pan}
		if err != nil {
			x.Err = trunc(err.Error(), 200)
			return "rej", x
		}
		write()
		return "ok", x
	}
	m := w.msg(e)
	if m == nil {
		panic("unknown event " + e.M)
	}
	x := X{Vb: true, Sg: []string{}}
	if vb, ok := m.(interface{ ValidateBasic() error }); ok {
		err, _ := guard(vb.ValidateBasic)
		x.Vb = err == nil
		if err != nil {
			x.Err = "vb: " + trunc(err.Error(), 200)
		}
	}
	_, _ = guard(func() error {
		ss, _, err := w.app.AppCodec().GetMsgV1Signers(m)
		for _, s := range ss {
			x.Sg = append(x.Sg, w.nm(sdk.AccAddress(s).String()))
		}
		return err
	})
	c, write := w.ctx.CacheContext()
	c = c.WithGasMeter(storetypes.NewInfiniteGasMeter()).WithEventManager(sdk.NewEventManager())
	err, pan := guard(func() error {
		_, err := w.app.MsgServiceRouter().Handler(m)(c, m)
		return err
	})
	x.Pan = pan
	if err != nil {
		x.Err = trunc(err.Error(), 200)
		return "rej", x
	}
	x.Gas, x.evs = c.GasMeter().GasConsumed(), hashEvents(c)
	write()
	return "ok", x
}

// roundtrip exports the genesis state of the exchange, wipes the exchange and
// imports the export again.
func (w *World) roundtrip(c sdk.Context) error {
	cdc := w.app.AppCodec()
	mod := w.dex()
	bz := w.export(c)
	if err := mod.(module.HasGenesisBasics).ValidateGenesis(cdc, nil, bz); err != nil {
		return fmt.Errorf("export is not valid: %w", err)
	}
	w.wipe(c)
	mod.(genesisMod).InitGenesis(c, cdc, bz)
	return nil
}

// wipe empties the store of the exchange and gives it other parameters.
func (w *World) wipe(c sdk.Context) {
	st := c.KVStore(w.app.GetKey(dextypes.StoreKey))
	it := st.Iterator(nil, nil)
	var keys [][]byte
	for ; it.Valid(); it.Next() {
		keys = append(keys, it.Key())
	}
	it.Close()
	for _, k := range keys {
		st.Delete(k)
	}
	blank := dextypes.DefaultParams()
	blank.BatchSize, blank.TickPrecision, blank.MaxNumActivePoolsPerPair = 77, 9, 1234
	blank.MinInitialPoolCoinSupply, blank.MinInitialDepositAmount = math.NewInt(77), math.NewInt(78)
	w.app.DexKeeper.SetParams(c, blank)
}

// entries reads the raw store of the exchange and its parameters.
func (w *World) entries() map[string]string {
	m := map[string]string{}
	for _, k := range []string{dextypes.StoreKey, "params"} {
		it := w.ctx.KVStore(w.app.GetKey(k)).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			if len(it.Key()) == 1 && len(it.Value()) == 0 {
				continue // a counter that is 0, like one that is not there
			}
			m[k+"|"+hex.EncodeToString(it.Key())] = string(it.Value())
		}
		it.Close()
	}
	return m
}

func diffEntries(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return "lost " + trunc(k, 60)
		} else if v != a[k] {
			return "changed " + trunc(k, 60)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return "new " + trunc(k, 60)
		}
	}
	return "same"
}

// digest hashes everything the exchange stores, and all balances.
func (w *World) digest() string {
	h := sha256.New()
	for _, k := range []string{dextypes.StoreKey, "bank", "params", "acc"} {
		it := w.ctx.KVStore(w.app.GetKey(k)).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			fmt.Fprintf(h, "%s|%x|%x\n", k, it.Key(), it.Value())
		}
		it.Close()
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// ---------------------------------------------------------------- recording

// Rec writes a trace.
type Rec struct {
	w    *World
	f    *os.File
	n    int // lines written
	sp   int // line with the current state
	last []byte
	cur  *State
	halt bool
	run  []step // what was executed since start
}

// step is one executed event with everything replicas must agree on.
type step struct {
	e   *Ev
	out string
}

func newRec(path string) *Rec {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Rec{f: f}
}

func (r *Rec) line(e *Ev, res string, x X, observe bool) {
	r.n++
	m := map[string]any{"e": e, "r": res, "x": x}
	if observe {
		var s *State
		err, _ := guard(func() error { s = r.w.dump(); return nil })
		if err != nil { // what the exchange stored cannot be read back
			r.n--
			x.Err = trunc(err.Error(), 200)
			r.stop(e, "corrupt", x)
		}
		bz, err := json.Marshal(s)
		if err != nil {
			panic(err)
		}
		if !bytes.Equal(bz, r.last) {
			r.last, r.sp, r.cur = bz, r.n, s
			m["s"] = json.RawMessage(bz)
		}
	}
	m["sp"] = r.sp
	bz, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	r.f.Write(append(bz, '\n'))
}

// genesisOf is the genesis state of the exchange at the beginning of a run.
func (w *World) genesisOf(e *Ev) *dextypes.GenesisState {
	gs := dextypes.DefaultGenesis()
	gs.Params, gs.LastPairId, gs.LastPoolId = w.decPar(*e.Par), e.Lp, e.Ll
	for _, p := range e.Gp {
		q := dextypes.NewPair(p.ID, p.Base, p.Quote)
		q.LastOrderId, q.CurrentBatchId = p.Lo, p.Batch
		gs.Pairs = append(gs.Pairs, q)
	}
	return gs
}

// setup gives the world the parameters and balances of e.
func (w *World) setup(e *Ev) {
	w.ctx = w.ctx.WithBlockHeight(e.H).WithBlockTime(epoch.Add(time.Duration(e.T) * time.Millisecond))
	gs := w.genesisOf(e)
	w.dex().(genesisMod).InitGenesis(w.ctx, w.app.AppCodec(), w.app.AppCodec().MustMarshalJSON(gs))
	for _, u := range sortedKeys(e.Fund) {
		if err := app.FundAccount(w.app.BankKeeper, w.ctx, w.acc(u), decCs(e.Fund[u])); err != nil {
			panic(err)
		}
	}
}

// start begins a run: a fresh branch of the application with e.Par and e.Fund.
func (r *Rec) start(a *app.App, e *Ev) {
	var w *World
	if e.Chain {
		_, w = newChain(e)
	} else {
		w = newWorld(a)
		w.setup(e)
	}
	r.w, r.last, r.halt, r.run = w, nil, false, nil
	r.line(e, "ok", X{Sg: []string{}}, true)
	r.run = append(r.run, step{e, ""})
}

func (w *World) outcome(e *Ev, res string, x X) string {
	s := fmt.Sprintf("%s %d %s %s", res, x.Gas, x.Err, x.evs)
	if e.M == "end" || e.M == "genesis" {
		s += " " + w.digest()
	}
	return s
}

// replicas executes the run again n times, and records whether they agree.
func (r *Rec) replicas(a *app.App, n int) {
	for i := 0; i < n; i++ {
		w := newWorld(a)
		for n, addr := range r.w.addr {
			w.reg(n, addr)
		}
		w.setup(r.run[0].e)
		x := X{Sg: []string{}, Dig: "same"}
		for k, s := range r.run[1:] {
			res, y := w.exec(s.e)
			if o := w.outcome(s.e, res, y); o != s.out {
				x.Dig = trunc(fmt.Sprintf("event %d of the run, %s: %q, then %q", k+1, s.e.M, s.out, o), 300)
				break
			}
		}
		r.line(&Ev{M: "det"}, "ok", x, false)
	}
}

// watch executes one event; one that does not come to an end is the last one.
func (r *Rec) watch(e *Ev) (res string, x X) {
	done := make(chan bool, 1)
	go func() {
		res, x = r.w.exec(e)
		done <- true
	}()
	select {
	case <-done:
		return res, x
	case <-time.After(time.Minute):
		r.stop(e, "hang", X{Vb: true, Sg: []string{}})
	}
	return "", X{}
}

// stop records an event after which nothing more can be observed.
func (r *Rec) stop(e *Ev, res string, x X) {
	r.line(e, res, x, false)
	fmt.Printf("LINES %d\n", r.n)
	os.Exit(0)
}

// do executes and records one event.
// dry tells how e would end, and leaves no trace.
func (r *Rec) dry(e *Ev) string {
	ctx := r.w.ctx
	c, _ := ctx.CacheContext()
	r.w.ctx = c
	res, _ := r.watch(e)
	r.w.ctx = ctx
	return res
}

func (r *Rec) do(e *Ev) string {
	if r.halt {
		return "halt"
	}
	t0 := time.Now()
	res, x := r.watch(e)
	if d := time.Since(t0); d > time.Second && os.Getenv("VERIF_SLOW") != "" {
		fmt.Println("SLOW", d, e.M, len(r.run), os.Getenv("VERIF_OUT"), r.n)
	}
	r.line(e, res, x, true)
	if e.M != "block" {
		r.run = append(r.run, step{e, r.w.outcome(e, res, x)})
	}
	if res == "halt" && (e.M == "begin" || e.M == "end" || e.M == "block") {
		r.halt = true // the chain has stopped; so does the run
	}
	return res
}
