-------------------------------- MODULE Dex ---------------------------------
(***************************************************************************)
(* The exchange: its whole state and every transition, exactly.            *)
(*                                                                         *)
(* A state st is a record                                                  *)
(*   h, t     height and time (ms) of the block being executed             *)
(*   par      parameters (see ParamsOK)                                    *)
(*   lp, ll   last pair id, last pool id                                   *)
(*   pairs    <<[id, base, quote, esc, lo, last, batch]>>  by id;          *)
(*            lo: last order id; last: <<>> or <<price>>                   *)
(*   pools    <<[id, pair, typ, creator, res, pcd, min, max, ldep, lwd,    *)
(*              dis]>> by id; min, max: <<>> or <<price>>                  *)
(*   orders   <<[pair, id, typ, h, who, dir, od, rd, offer, rem, recv,     *)
(*              price, amt, open, batch, exp, st]>> by pair, id            *)
(*   deps     <<[id, pool, h, who, coins, acc, mint, md, st]>> by pool, id *)
(*   wds      <<[id, pool, h, who, pcd, pc, wdn, st]>> by pool, id         *)
(*   mm       <<[u, pair, n]>> counts of market making orders              *)
(*   bal      account -> denom -> amount        sup  denom -> amount       *)
(* Coins are sequences of <<denom, amount>>.  Accounts are named: users    *)
(* u1, u2, ..; "esc1": escrow of pair 1; "res1": reserve of pool 1; "gesc" *)
(* escrow of deposit and withdraw requests; "mod" the module account; fee  *)
(* and dust collectors are parameters.                                     *)
(*                                                                         *)
(* An intermediate state also has a field bad: the transition cannot be    *)
(* completed (not enough coins, arithmetic abort, inconsistent matching).  *)
(***************************************************************************)
EXTENDS Pool, Functions

\* ------------------------------------------------------------ coins, bank
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Bal(st, a, d) == IF a \in DOMAIN st.bal THEN Get(st.bal[a], d, Zero) ELSE Zero
Sup(st, d)    == Get(st.sup, d, Zero)

LOCAL PutBal(b, a, d, v) == (a :> ((d :> v) @@ (IF a \in DOMAIN b THEN b[a] ELSE <<>>))) @@ b

Bad(st) == [st EXCEPT !.bad = TRUE]

Move(st, from, to, d, n) ==
    IF st.bad THEN st
    ELSE IF ~IsNum(n) THEN Bad(st)
    ELSE IF IsZ(n) THEN st
    ELSE IF n[1] < 0 \/ BLt(Bal(st, from, d), n) THEN Bad(st)
    ELSE LET b1 == PutBal(st.bal, from, d, BSub(Bal(st, from, d), n))
             b2 == PutBal(b1, to, d, BAdd(Bal([bal |-> b1], to, d), n))
         IN  [st EXCEPT !.bal = b2]

Send(st, from, to, coins) == FoldLeft(LAMBDA s, c : Move(s, from, to, c[1], c[2]), st, coins)

Mint(st, to, d, n) ==
    IF st.bad THEN st
    ELSE IF ~IsNum(n) THEN Bad(st)
    ELSE IF n[1] < 0 \/ BBitsOver(BAdd(Sup(st, d), n), 256) THEN Bad(st)
    ELSE [st EXCEPT !.bal = PutBal(@, to, d, BAdd(Bal(st, to, d), n)),
                    !.sup = (d :> BAdd(Sup(st, d), n)) @@ @]

Burn(st, from, d, n) ==
    IF st.bad THEN st
    ELSE IF BLt(Bal(st, from, d), n) THEN Bad(st)
    ELSE [st EXCEPT !.bal = PutBal(@, from, d, BSub(Bal(st, from, d), n)),
                    !.sup = (d :> BSub(Sup(st, d), n)) @@ @]

AmtOf(coins, d) == FoldLeft(LAMBDA a, c : IF c[1] = d THEN BAdd(a, c[2]) ELSE a, Zero, coins)
Denoms(coins)   == {coins[k][1] : k \in DOMAIN coins}

\* The coins x of d1 and y of d2 without zeroes (a set of coins is ordered by denom in
\* the store; specification compares coins as sets).
TwoCoins(d1, x, d2, y) == SelectSeq(<< <<d1, x>>, <<d2, y>> >>, LAMBDA c : ~IsZ(c[2]))
SameCoins(a, b) == Range(a) = Range(b) /\ Len(a) = Len(b)

\* Denominations, in their lexicographic order; the others are malformed.
IdsInUse == 1..140 \cup 250..300 \cup 65530..65570   \* the numbers of pairs and pools that histories reach
LOCAL Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE 5
LOCAL LexKey(n) == n * (CASE Digits(n) = 1 -> 10000 [] Digits(n) = 2 -> 1000 [] Digits(n) = 3 -> 100
                          [] Digits(n) = 4 -> 10 [] OTHER -> 1) * 10 + Digits(n)
PoolDenomOrder == LET ns == SetToSortSeq(IdsInUse, LAMBDA a, b : LexKey(a) < LexKey(b))
                  IN  [k \in DOMAIN ns |-> "pool" \o ToString(ns[k])]
LongA == "laaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
LongB == "lbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"   \* of the greatest length
DenomOrder == <<"aaa", "aaaa", "bbb", "ccc", "ddd", LongA, LongB>> \o PoolDenomOrder \o <<"stake", "zzz">>
LOCAL DenomRanks == [d \in Range(DenomOrder) |-> CHOOSE k \in DOMAIN DenomOrder : DenomOrder[k] = d]
ValidDenom(d) == d \in DOMAIN DenomRanks
DenomLt(a, b) == DenomRanks[a] < DenomRanks[b]
ValidCoin(c)  == ValidDenom(c[1]) /\ IsNum(c[2]) /\ c[2][1] >= 0
ValidCoins(cs) == /\ \A k \in DOMAIN cs : ValidDenom(cs[k][1]) /\ IsPos(cs[k][2])
                  /\ \A k \in 1..(Len(cs) - 1) : DenomLt(cs[k][1], cs[k+1][1])

\* ------------------------------------------------------------ lookups
Ix(seq, P(_)) == {k \in DOMAIN seq : P(seq[k])}
HasPair(st, p) == \E k \in DOMAIN st.pairs : st.pairs[k].id = p
PairIx(st, p)  == CHOOSE k \in DOMAIN st.pairs : st.pairs[k].id = p
PairOf(st, p)  == st.pairs[PairIx(st, p)]
HasPool(st, p) == \E k \in DOMAIN st.pools : st.pools[k].id = p
PoolIx(st, p)  == CHOOSE k \in DOMAIN st.pools : st.pools[k].id = p
PoolOf(st, p)  == st.pools[PoolIx(st, p)]
OrderIxs(st, p, id) == {k \in DOMAIN st.orders : st.orders[k].pair = p /\ st.orders[k].id = id}
PairPoolIx(st, p) == SelectSeq([k \in DOMAIN st.pools |-> k], LAMBDA k : st.pools[k].pair = p)
PairOrderIx(st, p) == SelectSeq([k \in DOMAIN st.orders |-> k], LAMBDA k : st.orders[k].pair = p)

EscOf(p) == "esc" \o ToString(p)
ResOf(p) == "res" \o ToString(p)
PcdOf(p) == "pool" \o ToString(p)

MMCount(st, u, p) == LET x == {k \in DOMAIN st.mm : st.mm[k].u = u /\ st.mm[k].pair = p}
                     IN  IF x = {} THEN 0 ELSE st.mm[CHOOSE k \in x : TRUE].n
MMPut(st, u, p, n) ==
    LET rest == SelectSeq(st.mm, LAMBDA r : ~(r.u = u /\ r.pair = p))
    IN  [st EXCEPT !.mm = IF n = 0 THEN rest ELSE Append(rest, [u |-> u, pair |-> p, n |-> n])]

Live      == {"new", "open", "part"}      \* orders that can be matched
Finished  == {"done", "canc", "exp"}
Expired(o, t) == o.exp <= t

RxOf(st, q) == Bal(st, q.res, PairOf(st, q.pair).quote)
RyOf(st, q) == Bal(st, q.res, PairOf(st, q.pair).base)
PsOf(st, q) == Sup(st, q.pcd)
AmmOf(st, q) == IF q.typ = "ranged" THEN Ranged(RxOf(st, q), RyOf(st, q), PsOf(st, q), q.min[1], q.max[1])
                ELSE Basic(RxOf(st, q), RyOf(st, q), PsOf(st, q))
\* Depletion needs no translation.
DepletedNow(st, q) ==
    LET x == RxOf(st, q) y == RyOf(st, q) IN
    IF q.typ = "ranged" THEN IsZ(PsOf(st, q)) \/ (IsZ(x) /\ IsZ(y)) ELSE IsZ(PsOf(st, q)) \/ IsZ(x) \/ IsZ(y)

\* ------------------------------------------------------------ parameters
\* Accounts of the model are valid addresses, anything else is not one.
AddrNames == {"fee", "dust", "fee2", "dust2", "gov", "mod", "gesc"}
             \cup {"u" \o ToString(n) : n \in 1..9}
             \cup {"esc" \o ToString(n) : n \in IdsInUse} \cup {"res" \o ToString(n) : n \in IdsInUse}
ValidAddr(a) == a \in AddrNames

MaxTickPrecision == 15

ParamsOK(p) ==
    /\ p.bs >= 1
    /\ p.tp <= MaxTickPrecision
    /\ ValidAddr(p.fee) /\ ValidAddr(p.dust)
    /\ IsPos(p.mips)
    /\ ValidCoins(p.pcf) /\ ValidCoins(p.plf)
    /\ p.mind = <<9>> \/ (IsNum(p.mind) /\ p.mind[1] >= 0)     \* an absent minimum is no minimum
    /\ IsNum(p.ratio) /\ p.ratio[1] >= 0 /\ BLt(p.ratio, DecOne)
    /\ p.mmt >= 1 /\ p.mmmax >= 1 /\ p.life >= 0
    /\ IsNum(p.swap) /\ p.swap[1] >= 0
    /\ IsNum(p.wfee) /\ p.wfee[1] >= 0 /\ BLe(p.wfee, DecOne)

\* ------------------------------------------------------------ price limits
\* The limits of prices around the last one; a price is never zero.
LimLo(st, last) == LET p == DMul(last, DSub(DecOne, st.par.ratio)) IN TUp(IF IsZ(p) THEN One ELSE p, st.par.tp)
LimHi(st, last) == TDown(DMul(last, DAdd(DecOne, st.par.ratio)), st.par.tp)

TooSmall(amt, price) ==
    BLt(amt, MinCoin) \/ BLt(DMulInt(price, amt), D(MinCoin))
TooSmallPoison(amt, price) == ~BLt(amt, MinCoin) /\ ~IsNum(DMulInt(price, amt))

\* ======================================================================
\* Messages.  Each operator gives [ok, st].
\* ======================================================================
Rej(st)  == [ok |-> FALSE, st |-> st]
Res(st, st2) == IF st2.bad THEN Rej(st) ELSE [ok |-> TRUE, st |-> st2]

\* ------------------------------------------------------------ pairs
CreatePair(st, e) ==
    LET id == st.lp + 1
        s1 == Send(st, e.who, st.par.fee, st.par.pcf)
        pr == [id |-> id, base |-> e.base, quote |-> e.quote, esc |-> EscOf(id), lo |-> 0, last |-> <<>>, batch |-> 1]
    IN  IF \E k \in DOMAIN st.pairs : st.pairs[k].base = e.base /\ st.pairs[k].quote = e.quote THEN Rej(st)
        ELSE Res(st, [s1 EXCEPT !.lp = id, !.pairs = Append(@, pr)])

\* ------------------------------------------------------------ pools
LOCAL AddPool(st, e, typ, x, y, ps, lo, hi) ==
    LET pr == PairOf(st, e.pair)
        id == st.ll + 1
        q  == [id |-> id, pair |-> pr.id, typ |-> typ, creator |-> e.who, res |-> ResOf(id), pcd |-> PcdOf(id),
               min |-> lo, max |-> hi, ldep |-> 0, lwd |-> 0, dis |-> FALSE]
        s1 == Send(st, e.who, q.res, << <<pr.quote, x>>, <<pr.base, y>> >>)
        s2 == Send(s1, e.who, st.par.fee, st.par.plf)
        s3 == Mint(s2, e.who, q.pcd, BMax(ps, st.par.mips))
    IN  Res(st, [s3 EXCEPT !.ll = id, !.pools = Append(@, q)])

LOCAL ActivePools(st, p) == {k \in DOMAIN st.pools : st.pools[k].pair = p /\ ~st.pools[k].dis}

CreatePool(st, e) ==
    IF ~HasPair(st, e.pair) THEN Rej(st)
    ELSE LET pr == PairOf(st, e.pair)
             x == AmtOf(e.coins, pr.quote)  y == AmtOf(e.coins, pr.base)
             c == CreateBasic(x, y)
         IN  IF ~(Denoms(e.coins) \subseteq {pr.base, pr.quote}) THEN Rej(st)
             ELSE IF \E k \in DOMAIN e.coins : BLt(e.coins[k][2], st.par.mind) THEN Rej(st)
             ELSE IF \E k \in ActivePools(st, e.pair) : st.pools[k].typ = "basic" THEN Rej(st)
             ELSE IF Cardinality(ActivePools(st, e.pair)) >= st.par.maxp THEN Rej(st)
             ELSE IF ~c.ok THEN Rej(st)
             ELSE AddPool(st, e, "basic", x, y, c.ps, <<>>, <<>>)

CreateRangedPool(st, e) ==
    IF ~(IsTick(e.min, st.par.tp) /\ IsTick(e.max, st.par.tp) /\ IsTick(e.ini, st.par.tp)) THEN Rej(st)
    ELSE IF BLt(e.min, TLowest(st.par.tp)) THEN Rej(st)
    ELSE IF ~HasPair(st, e.pair) THEN Rej(st)
    ELSE LET pr == PairOf(st, e.pair)
             x == AmtOf(e.coins, pr.quote)  y == AmtOf(e.coins, pr.base)
             c == CreateRanged(x, y, e.min, e.max, e.ini)
         IN  IF ~(Denoms(e.coins) \subseteq {pr.base, pr.quote}) THEN Rej(st)
             ELSE IF Cardinality(ActivePools(st, e.pair)) >= st.par.maxp THEN Rej(st)
             ELSE IF ~c.ok THEN Rej(st)
             ELSE IF BLt(c.rx, st.par.mind) /\ BLt(c.ry, st.par.mind) THEN Rej(st)
             ELSE AddPool(st, e, "ranged", c.rx, c.ry, c.ps, <<e.min>>, <<e.max>>)

\* ------------------------------------------------------------ requests
Deposit(st, e) ==
    IF ~HasPool(st, e.pool) THEN Rej(st)
    ELSE LET k  == PoolIx(st, e.pool)
             q  == st.pools[k]
             pr == PairOf(st, q.pair)
             id == q.ldep + 1
             rq == [id |-> id, pool |-> q.id, h |-> st.h, who |-> e.who, coins |-> e.coins, acc |-> <<>>,
                    mint |-> Zero, md |-> q.pcd, st |-> "new"]
             s1 == Send(st, e.who, "gesc", e.coins)
             at == Cardinality({j \in DOMAIN st.deps : st.deps[j].pool <= q.id})
         IN  IF q.dis THEN Rej(st)
             ELSE IF q.typ = "basic" /\ Len(e.coins) # 2 THEN Rej(st)
             ELSE IF ~(Denoms(e.coins) \subseteq {pr.base, pr.quote}) THEN Rej(st)
             ELSE IF BGt(BAdd(RxOf(st, q), AmtOf(e.coins, pr.quote)), MaxCoin) THEN Rej(st)
             ELSE IF BGt(BAdd(RyOf(st, q), AmtOf(e.coins, pr.base)), MaxCoin) THEN Rej(st)
             ELSE Res(st, [s1 EXCEPT !.pools[k].ldep = id,
                                     !.deps = SubSeq(@, 1, at) \o <<rq>> \o SubSeq(@, at + 1, Len(@))])

Withdraw(st, e) ==
    IF ~HasPool(st, e.pool) THEN Rej(st)
    ELSE LET k  == PoolIx(st, e.pool)
             q  == st.pools[k]
             id == q.lwd + 1
             rq == [id |-> id, pool |-> q.id, h |-> st.h, who |-> e.who, pcd |-> e.pc[1], pc |-> e.pc[2],
                    wdn |-> <<>>, st |-> "new"]
             s1 == Send(st, e.who, "gesc", <<e.pc>>)
             at == Cardinality({j \in DOMAIN st.wds : st.wds[j].pool <= q.id})
         IN  IF q.dis THEN Rej(st)
             ELSE IF e.pc[1] # q.pcd THEN Rej(st)
             ELSE Res(st, [s1 EXCEPT !.pools[k].lwd = id,
                                     !.wds = SubSeq(@, 1, at) \o <<rq>> \o SubSeq(@, at + 1, Len(@))])

\* ------------------------------------------------------------ orders
\* typ: "limit", "market", "mm".
PlaceOrder(st, e, typ) ==
    IF BLt(Bal(st, e.who, e.oc[1]), e.oc[2]) THEN Rej(st)
    ELSE IF e.life > st.par.life THEN Rej(st)
    ELSE IF ~HasPair(st, e.pair) THEN Rej(st)
    ELSE LET
      k    == st.par.tp
      pr   == PairOf(st, e.pair)
      isM  == typ = "market"
      last == IF pr.last = <<>> THEN Zero ELSE pr.last[1]
      lo   == IF pr.last = <<>> THEN TLowest(k) ELSE LimLo(st, last)
      hi   == IF pr.last = <<>> THEN THighest(k) ELSE LimHi(st, last)
      denomsOK == IF e.dir = "b" THEN e.oc[1] = pr.quote /\ e.dd = pr.base
                  ELSE e.oc[1] = pr.base /\ e.dd = pr.quote
      price == IF isM THEN IF e.dir = "b" THEN LimHi(st, last)
                                           ELSE LimLo(st, last)
               ELSE IF e.dir = "b" THEN TDown(e.price, k) ELSE TUp(e.price, k)
      offer == OfferFor(e.dir, price, e.amt)
      id    == pr.lo + 1
      o     == [pair |-> pr.id, id |-> id, typ |-> typ, h |-> st.h, who |-> e.who, dir |-> e.dir,
                od |-> e.oc[1], rd |-> e.dd, offer |-> offer, rem |-> offer, recv |-> Zero, price |-> price,
                amt |-> e.amt, open |-> e.amt, batch |-> pr.batch, exp |-> st.t + e.life, st |-> "new"]
      at    == Cardinality({j \in DOMAIN st.orders : st.orders[j].pair <= pr.id})
      s1    == Move(st, e.who, pr.esc, e.oc[1], offer)
      IN
      IF isM /\ pr.last = <<>> THEN Rej(st)
      ELSE IF ~isM /\ (~IsNum(lo) \/ ~IsNum(hi)) THEN Rej(st)
      ELSE IF ~isM /\ (BGt(e.price, hi) \/ BLt(e.price, lo)) THEN Rej(st)
      ELSE IF ~denomsOK THEN Rej(st)
      ELSE IF ~IsNum(price) \/ ~IsNum(offer) THEN Rej(st)
      ELSE IF BLt(e.oc[2], offer) THEN Rej(st)
      ELSE IF TooSmallPoison(e.amt, price) THEN Rej(st)
      ELSE IF TooSmall(e.amt, price) THEN Rej(st)
      ELSE Res(st, [s1 EXCEPT !.pairs[PairIx(st, e.pair)].lo = id,
                              !.orders = SubSeq(@, 1, at) \o <<o>> \o SubSeq(@, at + 1, Len(@))])

PlaceMM(st, e) ==
    LET n == MMCount(st, e.who, e.pair)
        r == PlaceOrder(st, e, "mm")
    IN  IF n >= st.par.mmmax THEN Rej(st)
        ELSE IF ~r.ok THEN r
        ELSE [r EXCEPT !.st = MMPut(r.st, e.who, e.pair, n + 1)]

\* The order leaves the market: what is left of its offer goes back.
FinishOrder(st, k, status) ==
    LET o  == st.orders[k]
        s1 == Move(st, EscOf(o.pair), o.who, o.od, o.rem)
        n  == MMCount(st, o.who, o.pair)
        s2 == IF o.typ = "mm" THEN MMPut(s1, o.who, o.pair, IF n <= 1 THEN 0 ELSE n - 1) ELSE s1
    IN  IF o.st \in Finished THEN st ELSE [s2 EXCEPT !.orders[k].st = status]

CancelOrder(st, e) ==
    LET ks == OrderIxs(st, e.pair, e.id)
        k  == CHOOSE x \in ks : TRUE
        o  == st.orders[k]
    IN  IF ks = {} THEN Rej(st)
        ELSE IF o.who # e.who THEN Rej(st)
        ELSE IF o.st = "canc" THEN Rej(st)
        ELSE IF o.batch = PairOf(st, e.pair).batch THEN Rej(st)
        ELSE Res(st, FinishOrder(st, k, "canc"))

CancelAll(st, e) ==
    LET sel(o) == /\ o.who = e.who
                  /\ (e.pairs = <<>> \/ o.pair \in Range(e.pairs))
                  /\ o.st # "canc" /\ o.batch < PairOf(st, o.pair).batch
        ks == SelectSeq([k \in DOMAIN st.orders |-> k], LAMBDA k : sel(st.orders[k]))
    IN  IF \E k \in DOMAIN e.pairs : ~HasPair(st, e.pairs[k]) THEN Rej(st)
        ELSE Res(st, FoldLeft(LAMBDA s, k : FinishOrder(s, k, "canc"), st, ks))

\* ------------------------------------------------------------ governance
UpdateParams(st, e) ==
    IF e.who # "gov" THEN Rej(st)
    ELSE IF ~ParamsOK(e.par) THEN Rej(st)
    ELSE [ok |-> TRUE, st |-> [st EXCEPT !.par = [e.par EXCEPT !.mind = IF @ = <<9>> THEN Zero ELSE @]]]

\* ======================================================================
\* Stateless validity of messages.
\* ======================================================================
LOCAL AddrOK(e) == ValidAddr(e.who)
LOCAL InRange(n) == IsNum(n) /\ BGe(n, MinCoin) /\ BLe(n, MaxCoin)
LOCAL AllLeMax(cs) == \A k \in DOMAIN cs : BLe(cs[k][2], MaxCoin)

LOCAL OrderOK(e, priced) ==
    /\ AddrOK(e) /\ e.pair # 0 /\ e.dir \in {"b", "s"}
    /\ ValidDenom(e.dd)
    /\ (priced => IsPos(e.price))
    /\ ValidCoin(e.oc) /\ InRange(e.oc[2])
    /\ InRange(e.amt)
    /\ (priced => LET m == OfferFor(e.dir, e.price, e.amt) IN IsNum(m) /\ BGe(e.oc[2], m))
    /\ e.oc[1] # e.dd
    /\ e.life >= 0

MsgOK(e) ==
    CASE e.m = "pair"     -> AddrOK(e) /\ ValidDenom(e.base) /\ ValidDenom(e.quote) /\ e.base # e.quote
      [] e.m = "pool"     -> AddrOK(e) /\ e.pair # 0 /\ ValidCoins(e.coins) /\ Len(e.coins) = 2 /\ AllLeMax(e.coins)
      [] e.m = "rpool"    -> AddrOK(e) /\ e.pair # 0 /\ ValidCoins(e.coins) /\ Len(e.coins) \in {1, 2} /\ AllLeMax(e.coins)
                             /\ RangeOK(e.min, e.max, e.ini)
      [] e.m = "deposit"  -> AddrOK(e) /\ e.pool # 0 /\ ValidCoins(e.coins) /\ Len(e.coins) \in {1, 2}
      [] e.m = "withdraw" -> AddrOK(e) /\ e.pool # 0 /\ ValidCoin(e.pc) /\ IsPos(e.pc[2])
      [] e.m \in {"limit", "mm"} -> OrderOK(e, TRUE)
      [] e.m = "market"   -> OrderOK(e, FALSE)
      [] e.m = "cancel"   -> AddrOK(e) /\ e.pair # 0 /\ e.id # 0
      [] e.m = "cancelall" -> AddrOK(e) /\ 0 \notin Range(e.pairs) /\ Cardinality(Range(e.pairs)) = Len(e.pairs)
      [] e.m = "params"   -> TRUE

Handle(st, e) ==
    CASE e.m = "pair"     -> CreatePair(st, e)
      [] e.m = "pool"     -> CreatePool(st, e)
      [] e.m = "rpool"    -> CreateRangedPool(st, e)
      [] e.m = "deposit"  -> Deposit(st, e)
      [] e.m = "withdraw" -> Withdraw(st, e)
      [] e.m = "limit"    -> PlaceOrder(st, e, "limit")
      [] e.m = "market"   -> PlaceOrder(st, e, "market")
      [] e.m = "mm"       -> PlaceMM(st, e)
      [] e.m = "cancel"   -> CancelOrder(st, e)
      [] e.m = "cancelall" -> CancelAll(st, e)
      [] e.m = "params"   -> UpdateParams(st, e)

Msg(st, e) == IF ~MsgOK(e) THEN Rej(st) ELSE Handle(st, e)

\* ======================================================================
\* Blocks.
\* ======================================================================
BeginBlock(st, h, t) ==
    [st EXCEPT !.h = h, !.t = t,
               !.orders = SelectSeq(@, LAMBDA o : o.st \notin Finished),
               !.deps = SelectSeq(@, LAMBDA r : r.st \notin {"ok", "fail"}),
               !.wds = SelectSeq(@, LAMBDA r : r.st \notin {"ok", "fail"})]

\* ------------------------------------------------------------ the batch of a pair
UserOrd(o) ==
    LET a == DTruncInt(DQuoTrunc(D(o.rem), o.price))
        amt == IF o.dir = "s" THEN o.open
               ELSE IF a = Ovf THEN o.open ELSE IF ~IsNum(a) THEN a ELSE BMin(o.open, a)
    IN  NewOrd("user", o.id, o.dir, o.price, amt, o.rem, o.batch)

\* Orders that go into the batch, after expiration and activation:
\* [st, ks: their indices].
Collect(st, p) ==
    LET one(a, k) ==
          LET o == a.st.orders[k] IN
          IF o.st \notin Live THEN a
          ELSE IF o.st # "new" /\ Expired(o, st.t) THEN [a EXCEPT !.st = FinishOrder(a.st, k, "exp")]
          ELSE [st |-> IF o.st = "new" THEN [a.st EXCEPT !.orders[k].st = "open"] ELSE a.st,
                ks |-> Append(a.ks, k)]
    IN  FoldLeft(one, [st |-> st, ks |-> <<>>], PairOrderIx(st, p))

CollectPools(st, p) ==
    LET one(a, k) ==
          LET q == a.st.pools[k] IN
          IF q.dis THEN a
          ELSE IF DepletedNow(a.st, q) THEN [a EXCEPT !.st = [@ EXCEPT !.pools[k].dis = TRUE]]
          ELSE IF NoPrice(AmmOf(a.st, q)) THEN a
          ELSE [a EXCEPT !.ps = Append(@, [id |-> q.id, P |-> AmmOf(a.st, q)])]
    IN  FoldLeft(one, [st |-> st, ps |-> <<>>], PairPoolIx(st, p))

\* The auction of pair p over orders ks and pools Ps: [S, p, m].
Auction(st, pr, ks, Ps) ==
    LET users == [j \in DOMAIN ks |-> UserOrd(st.orders[ks[j]])]
        S0    == IF \E j \in DOMAIN users : ~IsNum(users[j].amt) THEN [EmptyBook EXCEPT !.bad = TRUE]
                 ELSE AddOrds(EmptyBook, users)
    IN  IF S0.bad \/ (\E j \in DOMAIN Ps : PoolBad(Ps[j].P)) THEN [S |-> [S0 EXCEPT !.bad = TRUE], p |-> Zero, m |-> FALSE]
        ELSE IF pr.last = <<>> THEN MatchFirst(S0, Ps, st.par.tp)
        ELSE LET lo == LimLo(st, pr.last[1])  hi == LimHi(st, pr.last[1]) IN
             IF ~IsNum(lo) \/ ~IsNum(hi) THEN [S |-> [S0 EXCEPT !.bad = TRUE], p |-> Zero, m |-> FALSE]
             ELSE MatchBook(FoldLeft(LAMBDA S, e : AddOrds(S, PoolOrders(e.P, e.id, lo, hi, st.par.tp)), S0, Ps),
                            pr.last[1])

Matched(o) == BLt(o.open, o.amt)

\* Settle the auction: payments of the pools, updates of the orders, receipts, dust.
Settle(st, pr, S) ==
    LET hits  == SelectSeq(S.o, LAMBDA o : Matched(o))
        pool(o) == o.kind = "pool"
        pay(s, o)  == IF pool(o) THEN Move(s, ResOf(o.id), pr.esc, IF o.dir = "b" THEN pr.quote ELSE pr.base, o.paid) ELSE s
        upd(s, o)  ==
            IF pool(o) THEN s
            ELSE LET k  == CHOOSE x \in OrderIxs(s, pr.id, o.id) : TRUE
                     x  == s.orders[k]
                     op == BSub(x.open, BSub(o.amt, o.open))
                     x2 == [x EXCEPT !.open = op, !.rem = BSub(@, o.paid), !.recv = BAdd(@, o.recv)]
                     s1 == [s EXCEPT !.orders[k] = x2]
                 IN  IF x2.rem[1] < 0 THEN Bad(s)
                     ELSE IF IsZ(op) THEN FinishOrder(s1, k, "done") ELSE [s1 EXCEPT !.orders[k].st = "part"]
        who(s, o)  == IF pool(o) THEN ResOf(o.id)
                      ELSE s.orders[CHOOSE x \in OrderIxs(s, pr.id, o.id) : TRUE].who
        recv(s, o) == Move(s, pr.esc, who(s, o), IF o.dir = "b" THEN pr.base ELSE pr.quote, o.recv)
        s1 == FoldLeft(pay, st, hits)
        s2 == FoldLeft(upd, s1, hits)
        s3 == FoldLeft(recv, s2, hits)
        s4 == Move(s3, pr.esc, st.par.dust, pr.quote, S.q)
    IN  IF S.q[1] < 0 THEN Bad(st)
        ELSE IF \E i, j \in DOMAIN hits : pool(hits[i]) /\ pool(hits[j]) /\ hits[i].id = hits[j].id /\ hits[i].dir # hits[j].dir
        THEN Bad(st)
        ELSE s4

ExecPair(st, p) ==
    IF st.bad THEN st ELSE
    LET c  == Collect(st, p)
        d  == CollectPools(c.st, p)
        pr == PairOf(d.st, p)
        k  == PairIx(d.st, p)
        r  == Auction(d.st, pr, c.ks, d.ps)
        s  == IF r.m THEN Settle(d.st, pr, r.S) ELSE d.st
    IN  IF r.S.bad THEN Bad(st)
        ELSE IF r.m THEN [s EXCEPT !.pairs[k].last = <<r.p>>, !.pairs[k].batch = @ + 1]
        ELSE [s EXCEPT !.pairs[k].batch = @ + 1]

ExpireOrders(st) ==
    LET one(s, k) ==
          LET o == s.orders[k] IN
          IF s.bad THEN s
          ELSE IF o.st \in Live /\ Expired(o, s.t) THEN FinishOrder(s, k, "exp")
          ELSE IF TooSmallPoison(o.open, o.price) THEN Bad(s)
          ELSE IF TooSmall(o.open, o.price) THEN FinishOrder(s, k, "exp")
          ELSE s
    IN  FoldLeft(one, st, [k \in DOMAIN st.orders |-> k])

\* ------------------------------------------------------------ requests
LOCAL EndDep(st, k, status) ==      \* what was not accepted goes back
    LET r == st.deps[k]
        back == [j \in DOMAIN r.coins |-> <<r.coins[j][1], BSub(r.coins[j][2], AmtOf(r.acc, r.coins[j][1]))>>]
    IN  IF \E j \in DOMAIN r.acc : r.acc[j][1] \notin Denoms(r.coins) THEN Bad(st)
        ELSE [Send(st, "gesc", r.who, back) EXCEPT !.deps[k].st = status]

ExecDep(st, k) ==
    LET r  == st.deps[k]
        i  == PoolIx(st, r.pool)
        q  == st.pools[i]
        pr == PairOf(st, q.pair)
        c  == DepositCalc(RxOf(st, q), RyOf(st, q), PsOf(st, q), AmtOf(r.coins, pr.quote), AmtOf(r.coins, pr.base))
        acc == TwoCoins(pr.quote, c.ax, pr.base, c.ay)
        s1 == Mint(st, r.who, q.pcd, c.pc)
        s2 == Send(s1, "gesc", q.res, acc)
    IN  IF st.bad \/ r.st # "new" THEN st
        ELSE IF q.dis THEN EndDep(st, k, "fail")
        ELSE IF DepletedNow(st, q) THEN EndDep([st EXCEPT !.pools[i].dis = TRUE], k, "fail")
        ELSE IF Undefined(AmmOf(st, q)) THEN Bad(st)
        ELSE IF c.bad THEN Bad(st)
        ELSE IF IsZ(c.pc) THEN EndDep(st, k, "fail")
        ELSE IF s2.bad THEN s2
        ELSE EndDep([s2 EXCEPT !.deps[k].acc = acc, !.deps[k].mint = c.pc], k, "ok")

LOCAL FailWd(st, k) == LET r == st.wds[k] IN
    [Move(st, "gesc", r.who, r.pcd, r.pc) EXCEPT !.wds[k].st = "fail"]

ExecWd(st, k) ==
    LET r  == st.wds[k]
        i  == PoolIx(st, r.pool)
        q  == st.pools[i]
        pr == PairOf(st, q.pair)
        ps == PsOf(st, q)
        c  == WithdrawCalc(RxOf(st, q), RyOf(st, q), ps, r.pc, st.par.wfee)
        w  == TwoCoins(pr.quote, c.x, pr.base, c.y)
        s1 == Burn(st, "gesc", r.pcd, r.pc)
        s2 == Send(s1, q.res, r.who, w)
        s3 == IF r.pc = ps THEN [s2 EXCEPT !.pools[i].dis = TRUE] ELSE s2
    IN  IF st.bad \/ r.st # "new" THEN st
        ELSE IF q.dis THEN FailWd(st, k)
        ELSE IF DepletedNow(st, q) THEN FailWd([st EXCEPT !.pools[i].dis = TRUE], k)
        ELSE IF Undefined(AmmOf(st, q)) THEN Bad(st)
        ELSE IF c.bad THEN Bad(st)
        ELSE IF IsZ(c.x) /\ IsZ(c.y) THEN FailWd(st, k)
        ELSE IF s3.bad THEN s3
        ELSE [s3 EXCEPT !.wds[k].st = "ok", !.wds[k].wdn = w]

Execute(st) ==
    LET s1 == FoldLeft(LAMBDA s, k : ExecPair(s, st.pairs[k].id), st, [k \in DOMAIN st.pairs |-> k])
        s2 == ExpireOrders(s1)
        s3 == FoldLeft(ExecDep, s2, [k \in DOMAIN s2.deps |-> k])
    IN  IF s1.bad THEN s1 ELSE IF s2.bad THEN s2
        ELSE FoldLeft(ExecWd, s3, [k \in DOMAIN s3.wds |-> k])

EndBlock(st) == IF st.h % st.par.bs = 0 THEN Execute(st) ELSE st
=============================================================================
