// Package verifdrv drives the real application and records what it does as a
// trace for the TLA+ specification in /verif/spec.
package verifdrv

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"

	"defund/app"
	"defund/x/dex/types"
)

// ---------------------------------------------------------------- numbers

// Big is the limb representation used by BigNum.tla.
type Big []int

var base4 = big.NewInt(10000)

func enc(b *big.Int) Big {
	if b == nil {
		return Big{9} // no value at all
	}
	if b.Sign() == 0 {
		return Big{0}
	}
	r := Big{b.Sign()}
	m := new(big.Int).Abs(b)
	d := new(big.Int)
	for m.Sign() > 0 {
		m.DivMod(m, base4, d)
		r = append(r, int(d.Int64()))
	}
	return r
}

func (b Big) big() *big.Int {
	if len(b) == 0 || b[0] == 9 {
		return nil
	}
	r := new(big.Int)
	for i := len(b) - 1; i >= 1; i-- {
		r.Mul(r, base4)
		r.Add(r, big.NewInt(int64(b[i])))
	}
	if b[0] < 0 {
		r.Neg(r)
	}
	return r
}

func encI(i math.Int) Big {
	if i.IsNil() {
		return Big{9}
	}
	return enc(i.BigInt())
}

func encD(d math.LegacyDec) Big {
	if d.IsNil() {
		return Big{9}
	}
	return enc(d.BigInt())
}

func (b Big) int() math.Int {
	x := b.big()
	if x == nil {
		return math.Int{}
	}
	return math.NewIntFromBigInt(x)
}

func (b Big) dec() math.LegacyDec {
	x := b.big()
	if x == nil {
		return math.LegacyDec{}
	}
	return math.LegacyNewDecFromBigIntWithPrec(x, math.LegacyPrecision)
}

// ---------------------------------------------------------------- coins

type Coin struct {
	D string
	A Big
}

func (c Coin) MarshalJSON() ([]byte, error) { return json.Marshal([]any{c.D, c.A}) }
func (c *Coin) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&c.D, &c.A})
}
func (c Coin) sdk() sdk.Coin { return sdk.Coin{Denom: c.D, Amount: c.A.int()} }

func encC(c sdk.Coin) Coin { return Coin{c.Denom, encI(c.Amount)} }
func encCs(cs sdk.Coins) []Coin {
	r := []Coin{}
	for _, c := range cs {
		r = append(r, encC(c))
	}
	return r
}
func decCs(cs []Coin) sdk.Coins {
	r := sdk.Coins{}
	for _, c := range cs {
		r = append(r, c.sdk())
	}
	return r
}

// ---------------------------------------------------------------- state

type Par struct {
	Bs    uint32 `json:"bs"`
	Tp    uint32 `json:"tp"`
	Fee   string `json:"fee"`
	Dust  string `json:"dust"`
	Mips  Big    `json:"mips"`
	Pcf   []Coin `json:"pcf"`
	Plf   []Coin `json:"plf"`
	Mind  Big    `json:"mind"`
	Ratio Big    `json:"ratio"`
	Mmt   uint32 `json:"mmt"`
	Mmmax uint32 `json:"mmmax"`
	Life  int64  `json:"life"`
	Swap  Big    `json:"swap"`
	Wfee  Big    `json:"wfee"`
	Dgas  uint64 `json:"dgas"`
	Wgas  uint64 `json:"wgas"`
	Ogas  uint64 `json:"ogas"`
	Maxp  uint32 `json:"maxp"`
}

type Pair struct {
	ID    uint64 `json:"id"`
	Base  string `json:"base"`
	Quote string `json:"quote"`
	Esc   string `json:"esc"`
	Lo    uint64 `json:"lo"`
	Last  []Big  `json:"last"`
	Batch uint64 `json:"batch"`
}

type PoolR struct {
	ID      uint64 `json:"id"`
	Pair    uint64 `json:"pair"`
	Typ     string `json:"typ"`
	Creator string `json:"creator"`
	Res     string `json:"res"`
	Pcd     string `json:"pcd"`
	Min     []Big  `json:"min"`
	Max     []Big  `json:"max"`
	Ldep    uint64 `json:"ldep"`
	Lwd     uint64 `json:"lwd"`
	Dis     bool   `json:"dis"`
}

type OrderR struct {
	Pair  uint64 `json:"pair"`
	ID    uint64 `json:"id"`
	Typ   string `json:"typ"`
	H     int64  `json:"h"`
	Who   string `json:"who"`
	Dir   string `json:"dir"`
	Od    string `json:"od"`
	Rd    string `json:"rd"`
	Offer Big    `json:"offer"`
	Rem   Big    `json:"rem"`
	Recv  Big    `json:"recv"`
	Price Big    `json:"price"`
	Amt   Big    `json:"amt"`
	Open  Big    `json:"open"`
	Batch uint64 `json:"batch"`
	Exp   int64  `json:"exp"`
	St    string `json:"st"`
}

type DepR struct {
	ID    uint64 `json:"id"`
	Pool  uint64 `json:"pool"`
	H     int64  `json:"h"`
	Who   string `json:"who"`
	Coins []Coin `json:"coins"`
	Acc   []Coin `json:"acc"`
	Mint  Big    `json:"mint"`
	Md    string `json:"md"`
	St    string `json:"st"`
}

type WdR struct {
	ID   uint64 `json:"id"`
	Pool uint64 `json:"pool"`
	H    int64  `json:"h"`
	Who  string `json:"who"`
	Pcd  string `json:"pcd"`
	Pc   Big    `json:"pc"`
	Wdn  []Coin `json:"wdn"`
	St   string `json:"st"`
}

type MMR struct {
	U    string `json:"u"`
	Pair uint64 `json:"pair"`
	N    uint32 `json:"n"`
}

type State struct {
	H      int64                     `json:"h"`
	T      int64                     `json:"t"`
	Par    Par                       `json:"par"`
	Lp     uint64                    `json:"lp"`
	Ll     uint64                    `json:"ll"`
	Pairs  []Pair                    `json:"pairs"`
	Pools  []PoolR                   `json:"pools"`
	Orders []OrderR                  `json:"orders"`
	Deps   []DepR                    `json:"deps"`
	Wds    []WdR                     `json:"wds"`
	MM     []MMR                     `json:"mm"`
	Bal    map[string]map[string]Big `json:"bal"`
	Sup    map[string]Big            `json:"sup"`
	Bad    bool                      `json:"bad"`
}

// ---------------------------------------------------------------- world

// epoch is time 0 of the traces.
var epoch = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)

// World is one run: a branch of the application state and the names of the
// accounts that occur in it.
type World struct {
	app   *app.App
	ctx   sdk.Context
	name  map[string]string         // bech32 -> name
	addr  map[string]sdk.AccAddress // name -> address
	skip  map[string]bool           // accounts of the base state
	chain *Chain                    // when the run is a chain of blocks
}

func userAddr(i int) sdk.AccAddress {
	b := make([]byte, 20)
	copy(b, fmt.Sprintf("verif-user-%04d", i))
	return b
}

func newWorld(a *app.App) *World {
	ctx, _ := a.BaseApp.NewContext(true).CacheContext()
	w := &World{app: a, ctx: ctx, name: map[string]string{}, addr: map[string]sdk.AccAddress{}, skip: map[string]bool{}}
	for i := 1; i <= 9; i++ {
		w.reg(fmt.Sprintf("u%d", i), userAddr(i))
	}
	w.regFixed()
	for _, b := range a.BankKeeper.GetAccountsBalances(ctx) {
		w.skip[b.Address] = true
	}
	return w
}

// regFixed names the accounts that every run has.
func (w *World) regFixed() {
	w.reg("gesc", types.GlobalEscrowAddress)
	w.reg("mod", authtypes.NewModuleAddress(types.ModuleName))
	w.reg("gov", authtypes.NewModuleAddress(govtypes.ModuleName))
	w.reg("fee", types.DefaultFeeCollectorAddress)
	w.reg("dust", types.DefaultDustCollectorAddress)
	w.reg("fee2", userAddr(101))
	w.reg("dust2", userAddr(102))
}

func (w *World) reg(name string, addr sdk.AccAddress) {
	s := addr.String()
	if _, ok := w.name[s]; ok {
		return // the first name of an address stays
	}
	w.name[s] = name
	w.addr[name] = addr
}

func (w *World) nm(bech string) string {
	if bech == "" {
		return ""
	}
	if n, ok := w.name[bech]; ok {
		return n
	}
	return bech
}

// at gives the bech32 string of a name; names that are not registered are
// passed on as they are (malformed addresses).
func (w *World) at(name string) string {
	if a, ok := w.addr[name]; ok {
		return a.String()
	}
	return name
}

func (w *World) acc(name string) sdk.AccAddress {
	if a, ok := w.addr[name]; ok {
		return a
	}
	a, _ := sdk.AccAddressFromBech32(name)
	return a
}

var orderTyp = map[types.OrderType]string{types.OrderTypeLimit: "limit", types.OrderTypeMarket: "market", types.OrderTypeMM: "mm"}
var orderDir = map[types.OrderDirection]string{types.OrderDirectionBuy: "b", types.OrderDirectionSell: "s"}
var orderSt = map[types.OrderStatus]string{types.OrderStatusNotExecuted: "new", types.OrderStatusNotMatched: "open",
	types.OrderStatusPartiallyMatched: "part", types.OrderStatusCompleted: "done",
	types.OrderStatusCanceled: "canc", types.OrderStatusExpired: "exp"}
var reqSt = map[types.RequestStatus]string{types.RequestStatusNotExecuted: "new", types.RequestStatusSucceeded: "ok", types.RequestStatusFailed: "fail"}
var poolTyp = map[types.PoolType]string{types.PoolTypeBasic: "basic", types.PoolTypeRanged: "ranged"}

func optD(d *math.LegacyDec) []Big {
	if d == nil {
		return []Big{}
	}
	return []Big{encD(*d)}
}

func (w *World) encPar(p types.Params) Par {
	return Par{Bs: p.BatchSize, Tp: p.TickPrecision, Fee: w.nm(p.FeeCollectorAddress), Dust: w.nm(p.DustCollectorAddress),
		Mips: encI(p.MinInitialPoolCoinSupply), Pcf: encCs(p.PairCreationFee), Plf: encCs(p.PoolCreationFee),
		Mind: encI(p.MinInitialDepositAmount), Ratio: encD(p.MaxPriceLimitRatio),
		Mmt: p.MaxNumMarketMakingOrderTicks, Mmmax: p.MaxNumMarketMakingOrdersPerPair,
		Life: p.MaxOrderLifespan.Milliseconds(), Swap: encD(p.SwapFeeRate), Wfee: encD(p.WithdrawFeeRate),
		Dgas: p.DepositExtraGas, Wgas: p.WithdrawExtraGas, Ogas: p.OrderExtraGas, Maxp: p.MaxNumActivePoolsPerPair}
}

func (w *World) decPar(p Par) types.Params {
	return types.Params{BatchSize: p.Bs, TickPrecision: p.Tp, FeeCollectorAddress: w.at(p.Fee), DustCollectorAddress: w.at(p.Dust),
		MinInitialPoolCoinSupply: p.Mips.int(), PairCreationFee: decCs(p.Pcf), PoolCreationFee: decCs(p.Plf),
		MinInitialDepositAmount: p.Mind.int(), MaxPriceLimitRatio: p.Ratio.dec(),
		MaxNumMarketMakingOrderTicks: p.Mmt, MaxNumMarketMakingOrdersPerPair: p.Mmmax,
		MaxOrderLifespan: time.Duration(p.Life) * time.Millisecond, SwapFeeRate: p.Swap.dec(), WithdrawFeeRate: p.Wfee.dec(),
		DepositExtraGas: p.Dgas, WithdrawExtraGas: p.Wgas, OrderExtraGas: p.Ogas, MaxNumActivePoolsPerPair: p.Maxp}
}

func (w *World) encPair(p types.Pair) Pair {
	return Pair{p.Id, p.BaseCoinDenom, p.QuoteCoinDenom, w.nm(p.EscrowAddress), p.LastOrderId, optD(p.LastPrice), p.CurrentBatchId}
}

func (w *World) encPool(p types.Pool) PoolR {
	return PoolR{p.Id, p.PairId, poolTyp[p.Type], w.nm(p.Creator), w.nm(p.ReserveAddress), p.PoolCoinDenom,
		optD(p.MinPrice), optD(p.MaxPrice), p.LastDepositRequestId, p.LastWithdrawRequestId, p.Disabled}
}

func (w *World) encOrder(o types.Order) OrderR {
	rem := encI(o.RemainingOfferCoin.Amount)
	if o.RemainingOfferCoin.Denom != o.OfferCoin.Denom {
		rem = Big{9}
	}
	return OrderR{o.PairId, o.Id, orderTyp[o.Type], o.MsgHeight, w.nm(o.Orderer), orderDir[o.Direction], o.OfferCoin.Denom, o.ReceivedCoin.Denom,
		encI(o.OfferCoin.Amount), rem, encI(o.ReceivedCoin.Amount), encD(o.Price), encI(o.Amount), encI(o.OpenAmount),
		o.BatchId, o.ExpireAt.Sub(epoch).Milliseconds(), orderSt[o.Status]}
}

func (w *World) encDep(r types.DepositRequest) DepR {
	return DepR{r.Id, r.PoolId, r.MsgHeight, w.nm(r.Depositor), encCs(r.DepositCoins), encCs(r.AcceptedCoins),
		encI(r.MintedPoolCoin.Amount), r.MintedPoolCoin.Denom, reqSt[r.Status]}
}

func (w *World) encWd(r types.WithdrawRequest) WdR {
	return WdR{r.Id, r.PoolId, r.MsgHeight, w.nm(r.Withdrawer), r.PoolCoin.Denom, encI(r.PoolCoin.Amount), encCs(r.WithdrawnCoins), reqSt[r.Status]}
}

// dump reads the whole state of the exchange.
func (w *World) dump() *State {
	k, ctx := w.app.DexKeeper, w.ctx
	s := &State{H: ctx.BlockHeight(), T: ctx.BlockTime().Sub(epoch).Milliseconds(), Pairs: []Pair{}, Pools: []PoolR{},
		Orders: []OrderR{}, Deps: []DepR{}, Wds: []WdR{}, MM: []MMR{}, Bal: map[string]map[string]Big{}, Sup: map[string]Big{}}
	pairs, pools := k.GetAllPairs(ctx), k.GetAllPools(ctx)
	for _, p := range pairs {
		if a, err := sdk.AccAddressFromBech32(p.EscrowAddress); err == nil {
			w.reg(fmt.Sprintf("esc%d", p.Id), a)
		}
	}
	for _, p := range pools {
		if a, err := sdk.AccAddressFromBech32(p.ReserveAddress); err == nil {
			w.reg(fmt.Sprintf("res%d", p.Id), a)
		}
	}
	s.Par = w.encPar(k.GetParams(ctx))
	s.Lp, s.Ll = k.GetLastPairId(ctx), k.GetLastPoolId(ctx)
	for _, p := range pairs {
		s.Pairs = append(s.Pairs, w.encPair(p))
	}
	for _, p := range pools {
		s.Pools = append(s.Pools, w.encPool(p))
	}
	for _, o := range k.GetAllOrders(ctx) {
		s.Orders = append(s.Orders, w.encOrder(o))
	}
	for _, r := range k.GetAllDepositRequests(ctx) {
		s.Deps = append(s.Deps, w.encDep(r))
	}
	for _, r := range k.GetAllWithdrawRequests(ctx) {
		s.Wds = append(s.Wds, w.encWd(r))
	}
	k.IterateAllNumMMOrders(ctx, func(a sdk.AccAddress, pair uint64, n uint32) bool {
		s.MM = append(s.MM, MMR{w.nm(a.String()), pair, n})
		return false
	})
	denoms := map[string]bool{"aaa": true, "bbb": true, "ccc": true, "ddd": true}
	w.app.BankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		b := a.String()
		if _, named := w.name[b]; !named && w.skip[b] {
			return false
		}
		n := w.nm(b)
		if s.Bal[n] == nil {
			s.Bal[n] = map[string]Big{}
		}
		s.Bal[n][c.Denom] = encI(c.Amount)
		denoms[c.Denom] = true
		return false
	})
	for d := range denoms {
		if x := w.app.BankKeeper.GetSupply(ctx, d).Amount; !x.IsZero() {
			s.Sup[d] = encI(x)
		}
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func trunc(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n]
	}
	return s
}
