package verifdrv

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	"cosmossdk.io/store/rootmulti"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"

	"defund/app"
	dextypes "defund/x/dex/types"
)

// Tx is a transaction: messages of one sender, who signed it and how much gas
// it may use. Its result is recorded.
type Tx struct {
	Who string `json:"who"`
	Sig string `json:"sig"`
	Es  []*Ev  `json:"es"`
	Gas uint64 `json:"gas"`
	R   string `json:"r"` // "ok", "rej", or "gas": the gas did not suffice
	Err string `json:"err"`
}

const chainID = "verif-1"

// Node is one node of the chain.
type Node struct {
	app *app.App
	db  *dbm.MemDB
}

// Chain is a node and what is needed to send transactions to it.
type Chain struct {
	a, b *Node // b crashes, restarts and is asked many things; a does not
	key  map[string]cryptotypes.PrivKey
	tx   client.TxConfig
	r    *rand.Rand
	past bool // began at a height other than 1
}

func start(db *dbm.MemDB) *Node {
	return &Node{app.New(log.NewNopLogger(), db, nil, true, simtestutil.EmptyAppOptions{}, baseapp.SetChainID(chainID)), db}
}

func (n *Node) restart() { n.app = start(n.db).app }

// newChain starts two nodes with the same genesis.
func newChain(e *Ev) (*Chain, *World) {
	c := &Chain{key: map[string]cryptotypes.PrivKey{}, r: rand.New(rand.NewSource(e.T))}
	c.a, c.b = start(dbm.NewMemDB()), start(dbm.NewMemDB())
	c.tx = authtx.NewTxConfig(c.a.app.AppCodec(), authtx.DefaultSignModes)
	w := &World{app: c.a.app, name: map[string]string{}, addr: map[string]sdk.AccAddress{}, skip: map[string]bool{}}
	cdc := c.a.app.AppCodec()
	g := c.a.app.DefaultGenesis()
	for m, bz := range app.GenesisStateWithValSet(c.a.app) {
		g[m] = bz
	}
	var ag authtypes.GenesisState
	var bg banktypes.GenesisState
	cdc.MustUnmarshalJSON(g[authtypes.ModuleName], &ag)
	cdc.MustUnmarshalJSON(g[banktypes.ModuleName], &bg)
	accs, _ := authtypes.UnpackAccounts(ag.Accounts)
	for _, b := range bg.Balances {
		w.skip[b.Address] = true
	}
	for m := range app.GetMaccPerms() {
		if m != dextypes.ModuleName {
			w.skip[authtypes.NewModuleAddress(m).String()] = true
		}
	}
	for i := 1; i <= 9; i++ {
		u := fmt.Sprintf("u%d", i)
		k := secp256k1.GenPrivKeyFromSecret([]byte("verif " + u))
		c.key[u] = k
		w.reg(u, sdk.AccAddress(k.PubKey().Address()))
		accs = append(accs, authtypes.NewBaseAccount(sdk.AccAddress(k.PubKey().Address()), k.PubKey(), 0, 0))
		if cs := decCs(e.Fund[u]); !cs.Empty() {
			bg.Balances = append(bg.Balances, banktypes.Balance{Address: w.at(u), Coins: cs})
			bg.Supply = bg.Supply.Add(cs...)
		}
	}
	w.regFixed()
	ag2 := authtypes.NewGenesisState(authtypes.DefaultParams(), accs)
	mg := minttypes.DefaultGenesisState()
	mg.Minter.Inflation, mg.Params.InflationMax, mg.Params.InflationMin, mg.Params.InflationRateChange =
		math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()
	g[authtypes.ModuleName], g[banktypes.ModuleName] = cdc.MustMarshalJSON(ag2), cdc.MustMarshalJSON(&bg)
	g[minttypes.ModuleName], g[dextypes.ModuleName] = cdc.MustMarshalJSON(mg), cdc.MustMarshalJSON(w.genesisOf(e))
	bz, err := json.Marshal(g)
	if err != nil {
		panic(err)
	}
	for _, n := range []*Node{c.a, c.b} {
		_, err := n.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: epoch.Add(time.Duration(e.T) * time.Millisecond),
			InitialHeight: e.H, Validators: []abci.ValidatorUpdate{}, ConsensusParams: simtestutil.DefaultConsensusParams, AppStateBytes: bz})
		if err != nil {
			panic(err)
		}
		if _, err := n.block(e.H, e.T, nil); err != nil {
			panic(err)
		}
		if _, err := n.app.Commit(); err != nil {
			panic(err)
		}
	}
	w.chain = c
	w.view(e.H, e.T)
	return c, w
}

// view makes w look at the last committed state of the first node.
func (w *World) view(h, t int64) {
	w.app = w.chain.a.app
	w.ctx = w.app.NewUncachedContext(false, cmtproto.Header{ChainID: chainID, Height: h, Time: epoch.Add(time.Duration(t) * time.Millisecond)})
}

func (n *Node) block(h, t int64, txs [][]byte) (res *abci.ResponseFinalizeBlock, err error) {
	e, _ := guard(func() error {
		res, err = n.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: h, Time: epoch.Add(time.Duration(t) * time.Millisecond), Txs: txs})
		return err
	})
	return res, e
}

func (w *World) msgs(es []*Ev) []sdk.Msg {
	var ms []sdk.Msg
	for _, e := range es {
		if e.M == "send" {
			ms = append(ms, &banktypes.MsgSend{FromAddress: w.at(e.Who), ToAddress: w.at(e.To), Amount: decCs(e.Coins)})
		} else {
			ms = append(ms, w.msg(e))
		}
	}
	return ms
}

// sign gives the bytes of a transaction; its sender's sequence is seq.
func (c *Chain) sign(w *World, t *Tx, seq map[string]uint64) []byte {
	acc := c.a.app.AccountKeeper.GetAccount(w.ctx, w.acc(t.Who))
	tx, err := simtestutil.GenSignedMockTx(c.r, c.tx, w.msgs(t.Es), sdk.Coins{}, t.Gas, chainID,
		[]uint64{acc.GetAccountNumber()}, []uint64{acc.GetSequence() + seq[t.Who]}, c.key[t.Sig])
	if err != nil {
		return nil
	}
	bz, err := c.tx.TxEncoder()(tx)
	if err != nil {
		return nil
	}
	return bz
}

// wellFormed: a transaction with a message that is not is refused before its
// sender's sequence is looked at.
func wellFormed(ms []sdk.Msg) bool {
	for _, m := range ms {
		if v, ok := m.(sdk.HasValidateBasic); ok {
			if err, _ := guard(v.ValidateBasic); err != nil {
				return false
			}
		}
	}
	return true
}

func results(res *abci.ResponseFinalizeBlock) string {
	var s strings.Builder
	for i, x := range res.TxResults {
		fmt.Fprintf(&s, "%d: %d %d %q %d;", i, x.Code, x.GasUsed, x.Codespace, len(x.Events))
	}
	return s.String()
}

// differ names the stores whose committed state differs.
func differ(a, b *app.App) string {
	hashes := func(x *app.App) map[string]string {
		m := map[string]string{}
		cms := x.CommitMultiStore().(*rootmulti.Store)
		ci, err := cms.GetCommitInfo(cms.LatestVersion())
		if err != nil {
			return m
		}
		for _, s := range ci.StoreInfos {
			m[s.Name] = hex.EncodeToString(s.CommitId.Hash)
		}
		return m
	}
	ha, hb, names := hashes(a), hashes(b), []string{}
	for n := range ha {
		if ha[n] != hb[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

// fork begins a new chain, of two new nodes, with what the first node exports.
func (c *Chain) fork(zero bool, h, t int64) error {
	var ex servertypes.ExportedApp
	err, _ := guard(func() (err error) {
		ex, err = c.a.app.ExportAppStateAndValidators(zero, nil, nil)
		return err
	})
	if err != nil {
		return fmt.Errorf("export: %w", err)
	}
	c.a, c.b, c.past = start(dbm.NewMemDB()), start(dbm.NewMemDB()), h != 1
	for _, n := range []*Node{c.a, c.b} {
		err, _ := guard(func() error {
			_, err := n.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: epoch.Add(time.Duration(t) * time.Millisecond),
				InitialHeight: h, Validators: []abci.ValidatorUpdate{}, ConsensusParams: simtestutil.DefaultConsensusParams, AppStateBytes: ex.AppState})
			return err
		})
		if err != nil {
			return fmt.Errorf("start: %w", err)
		}
	}
	return nil
}

// runBlock executes one block on both nodes.
func (w *World) runBlock(e *Ev) (string, X) {
	c := w.chain
	x := X{Vb: true, Sg: []string{}, Dig: "same"}
	txs := [][]byte{}
	seq := map[string]uint64{}
	for _, t := range e.Txs {
		bz := c.sign(w, t, seq)
		txs = append(txs, bz)
		if t.Sig == t.Who && wellFormed(w.msgs(t.Es)) {
			seq[t.Who]++ // whether it succeeds or not
		}
	}
	up := !c.past // may be stopped: has stored a block of its own
	for _, how := range e.How {
		if how == "fork" || how == "fork0" {
			if err := c.fork(how == "fork0", e.H, e.T); err != nil {
				x.Err = trunc(err.Error(), 200)
				return "halt", x
			}
			up = false
			break
		}
	}
	// The second node is asked about the transactions and its state, may
	// crash after it has executed the block, and may be restarted.
	for _, how := range e.How {
		switch how {
		case "check":
			for _, bz := range txs {
				_, _ = guard(func() error { _, err := c.b.app.CheckTx(&abci.RequestCheckTx{Tx: bz}); return err })
			}
		case "simulate":
			for _, bz := range txs {
				_, _ = guard(func() error { _, _, err := c.b.app.Simulate(bz); return err })
			}
		case "ask":
			for _, q := range []string{"Pairs", "Pools", "Params"} {
				_, _ = guard(func() error {
					_, err := c.b.app.Query(nil, &abci.RequestQuery{Path: "/defund.dex.Query/" + q})
					return err
				})
			}
		case "restart":
			if up {
				c.b.restart()
			}
		case "crash":
			if up {
				_, _ = c.b.block(e.H, e.T, txs)
				c.b.restart()
			}
		}
	}
	ra, err := c.a.block(e.H, e.T, txs)
	if err != nil {
		x.Err = trunc(err.Error(), 200)
		return "halt", x
	}
	rb, err := c.b.block(e.H, e.T, txs)
	switch {
	case err != nil:
		x.Dig = "one node halts: " + trunc(err.Error(), 200)
	case !bytes.Equal(ra.AppHash, rb.AppHash):
		x.Dig = "state"
	case results(ra) != results(rb):
		x.Dig = trunc("results "+results(ra)+" and "+results(rb), 300)
	}
	for _, n := range []*Node{c.a, c.b} {
		if _, err := n.app.Commit(); err != nil {
			x.Err = trunc(err.Error(), 200)
			return "halt", x
		}
	}
	if x.Dig == "state" {
		x.Dig = "different state: " + differ(c.a.app, c.b.app)
	}
	for i, t := range e.Txs {
		y := ra.TxResults[i]
		t.R, t.Err = "ok", ""
		if y.Code != 0 {
			t.R, t.Err = "rej", trunc(y.Log, 120)
			if y.Codespace == "sdk" && y.Code == 11 {
				t.R = "gas"
			}
		}
	}
	w.view(e.H, e.T)
	return "ok", x
}

// chain generates and executes one history of blocks.
func (g *Gen) chain() {
	rec, r := g.rec, g.r
	h, t := rec.cur.H, rec.cur.T
	nb := g.p.Blocks[0] + r.Intn(g.p.Blocks[1]-g.p.Blocks[0]+1)
	choose := g.chooser()
	for b := 0; b < nb && !rec.halt; b++ {
		h++
		t += pick(r, int64(1000), 5000, 5000, 5000, 1, 60000, 3600000)
		e := &Ev{M: "block", H: h, T: t}
		last := map[string]bool{} // has sent one which may run out of gas
		add := func(es ...*Ev) {
			if last[es[0].Who] {
				return
			}
			x := &Tx{Who: es[0].Who, Sig: es[0].Who, Es: es, Gas: 50000000}
			if g.pct(3) {
				x.Sig = g.user()
			}
			if g.pct(4) {
				x.Gas, last[x.Who] = uint64(30000+r.Intn(250000)), true
			}
			e.Txs = append(e.Txs, x)
		}
		if b == 0 {
			add(&Ev{M: "pair", Who: "u1", Base: g.den[0], Quote: g.den[1]})
			if len(g.den) > 2 && g.pct(40) {
				add(&Ev{M: "pair", Who: "u2", Base: g.den[2], Quote: g.den[0]})
			}
		}
		for n := g.p.PerBlk[0] + r.Intn(g.p.PerBlk[1]-g.p.PerBlk[0]+1); n > 0; n-- {
			x := g.try(choose(), choose)
			if x.M == "params" || !strings.HasPrefix(x.Who, "u") || rec.w.chain.key[x.Who] == nil {
				continue
			}
			if x.M == "send" && !decCs(x.Coins).IsValid() || x.M == "send" && len(x.Coins) == 0 {
				continue
			}
			if k := len(e.Txs); k > 0 && g.pct(25) && e.Txs[k-1].Who == x.Who {
				e.Txs[k-1].Es = append(e.Txs[k-1].Es, x)
				continue
			}
			add(x)
			if k := len(e.Txs) - 1; k >= 0 && e.Txs[k].Who == x.Who && g.pct(10) { // the same again in one transaction
				e.Txs[k].Es = append(e.Txs[k].Es, x)
			}
		}
		switch {
		case b > 0 && g.pct(6):
			e.How = append(e.How, "fork")
		case b > 0 && g.pct(5):
			h, e.H = 1, 1
			e.How = append(e.How, "fork0")
		}
		for _, how := range []string{"check", "simulate", "ask", "crash", "restart", "check"} {
			if g.pct(25) {
				e.How = append(e.How, how)
			}
		}
		rec.do(e)
	}
}

func init() {
	// nodes must not write into the home directory of the user
	if os.Getenv("VERIF_OUT") != "" {
		app.DefaultNodeHome = os.TempDir()
	}
}
