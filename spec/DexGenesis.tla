----------------------------- MODULE DexGenesis ------------------------------
(***************************************************************************)
(* Genesis documents: which ones the exchange can start from, and what it  *)
(* contains then.  A document is a record [par, lp, ll, pairs, pools,      *)
(* orders, deps, wds, mm] of the parts of a state that the exchange itself *)
(* stores (see Dex); balances and supply are the bank's.                   *)
(***************************************************************************)
EXTENDS Dex

LOCAL Distinct(seq, f(_)) == \A a, b \in DOMAIN seq : a # b => f(seq[a]) # f(seq[b])
LOCAL NonNeg(n) == IsNum(n) /\ n[1] >= 0

PairEntryOK(g, p) ==
    /\ p.id >= 1 /\ p.id <= g.lp
    /\ ValidDenom(p.base) /\ ValidDenom(p.quote)
    /\ ValidAddr(p.esc)
    /\ p.last = <<>> \/ IsPos(p.last[1])
    /\ p.batch >= 1

PoolEntryOK(g, q) ==
    /\ q.id >= 1 /\ q.id <= g.ll
    /\ HasPair(g, q.pair)
    /\ ValidAddr(q.res)
    /\ ValidDenom(q.pcd)

DepEntryOK(g, d) ==
    /\ d.id >= 1 /\ d.h # 0
    /\ ValidAddr(d.who)
    /\ ValidCoins(d.coins) /\ Len(d.coins) \in 1..2
    /\ ValidCoins(d.acc) /\ Len(d.acc) <= 2
    /\ Denoms(d.acc) \subseteq Denoms(d.coins)
    /\ NonNeg(d.mint)
    /\ d.st \in {"new", "ok", "fail"}
    /\ HasPool(g, d.pool)
    /\ LET q == PoolOf(g, d.pool) p == PairOf(g, q.pair) IN
       /\ d.md = q.pcd
       /\ Denoms(d.coins) \subseteq {p.base, p.quote}
       /\ q.typ = "ranged" \/ Len(d.coins) = 2

WdEntryOK(g, d) ==
    /\ d.id >= 1 /\ d.h # 0
    /\ ValidAddr(d.who)
    /\ IsPos(d.pc)
    /\ ValidCoins(d.wdn) /\ Len(d.wdn) <= 2
    /\ d.st \in {"new", "ok", "fail"}
    /\ HasPool(g, d.pool) /\ d.pcd = PoolOf(g, d.pool).pcd

OrderEntryOK(g, o) ==
    /\ o.id >= 1 /\ o.h # 0
    /\ ValidAddr(o.who)
    /\ o.dir \in {"b", "s"}
    /\ IsPos(o.offer) /\ NonNeg(o.rem) /\ NonNeg(o.recv)
    /\ IsPos(o.price) /\ IsPos(o.amt) /\ NonNeg(o.open)
    /\ o.batch >= 1
    /\ o.exp # -1
    /\ o.st \in Live \cup Finished
    /\ HasPair(g, o.pair)
    /\ LET p == PairOf(g, o.pair) IN
       /\ o.batch <= p.batch
       /\ o.od = IF o.dir = "b" THEN p.quote ELSE p.base
       /\ o.rd = IF o.dir = "b" THEN p.base ELSE p.quote

DocOK(g) ==
    /\ ParamsOK(g.par)
    /\ Distinct(g.pairs, LAMBDA p : p.id) /\ \A k \in DOMAIN g.pairs : PairEntryOK(g, g.pairs[k])
    /\ Distinct(g.pools, LAMBDA q : q.id) /\ \A k \in DOMAIN g.pools : PoolEntryOK(g, g.pools[k])
    /\ Distinct(g.deps, LAMBDA d : <<d.pool, d.id>>) /\ \A k \in DOMAIN g.deps : DepEntryOK(g, g.deps[k])
    /\ Distinct(g.wds, LAMBDA d : <<d.pool, d.id>>) /\ \A k \in DOMAIN g.wds : WdEntryOK(g, g.wds[k])
    /\ Distinct(g.orders, LAMBDA o : <<o.pair, o.id>>) /\ \A k \in DOMAIN g.orders : OrderEntryOK(g, g.orders[k])
    /\ \A k \in DOMAIN g.mm : g.mm[k].n > 0 /\ ValidAddr(g.mm[k].u)

\* What the exchange contains after starting from g: the entries of g, each
\* kind by number; of several counts for one account and pair the last.
SameDoc(a, b) ==
    /\ a.par = b.par /\ a.lp = b.lp /\ a.ll = b.ll
    /\ \A f \in {"pairs", "pools", "orders", "deps", "wds"} : Range(a[f]) = Range(b[f]) /\ Len(a[f]) = Len(b[f])
    /\ \A f \in {"pairs", "pools"} : \A k \in 1..(Len(b[f]) - 1) : b[f][k].id < b[f][k+1].id
    /\ LET lastOf(u, p) == CHOOSE k \in DOMAIN a.mm : a.mm[k].u = u /\ a.mm[k].pair = p
                             /\ \A j \in (k+1)..Len(a.mm) : ~(a.mm[j].u = u /\ a.mm[j].pair = p)
       IN  Range(b.mm) = {a.mm[lastOf(a.mm[k].u, a.mm[k].pair)] : k \in DOMAIN a.mm}
=============================================================================
