-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Liquidity pools: pricing, the orders a pool puts into a batch, and the  *)
(* arithmetic of creation, deposits and withdrawals.                       *)
(*                                                                         *)
(* A pool P is [rng: ranged?, rx: quote reserve, ry: base reserve, ps:     *)
(* pool coin supply, lo, hi: price range, tx, ty: translation, xc, yc:     *)
(* translated reserves].  For a basic pool the last six are Zero.          *)
(***************************************************************************)
EXTENDS Amm

MinPoolPrice == BPow10(3)              \* 10^-15
MaxPoolPrice == BPow10(38)             \* 10^20
MinGapRatio  == BPow10(15)             \* 0.001

Basic(rx, ry, ps) == [rng |-> FALSE, rx |-> rx, ry |-> ry, ps |-> ps,
                      lo |-> Zero, hi |-> Zero, tx |-> Zero, ty |-> Zero, xc |-> Zero, yc |-> Zero]

(***************************************************************************)
(* Translation of a ranged pool: the virtual reserves that put its price   *)
(* at hi when it has no base coins and at lo when it has no quote coins.   *)
(***************************************************************************)
DeriveTrans(rx, ry, lo, hi) ==
    LET x == D(rx)  y == D(ry)
        sm == DSqrt(lo)  sl == DSqrt(hi)
        xoy == DQuo(x, y)
        yox == DQuo(y, x)
        r  == DSqrt(xoy)
        al == DSub(DQuo(sm, r), DQuo(r, sl))
        mid == DMul(DQuoInt(DAdd(al, DSqrt(DAdd(DSquare(al), DecFour))), 2), r)
        sp == IF IsZ(rx) THEN sm
              ELSE IF IsZ(ry) THEN sl
              ELSE IF ~IsNum(xoy) THEN xoy
              ELSE IF IsZ(xoy) THEN sm
              ELSE IF ~IsNum(yox) THEN yox
              ELSE IF IsZ(yox) THEN sl
              ELSE mid
    IN  IF ~IsNum(sm) THEN <<sm, sm>> ELSE IF ~IsNum(sl) THEN <<sl, sl>>
        ELSE IF ~IsNum(sp) THEN <<sp, sp>>
        ELSE
        LET k1 == DQuo(x, DSub(sp, sm))
            k2 == DQuo(y, DSub(DInv(sp), DInv(sl)))
            p  == DSquare(sp)
            price(k) == DQuo(DAdd(x, DMul(k, sm)), DAdd(y, DQuo(k, sl)))
            d1 == BAbs(DSub(p, price(k1)))
            d2 == BAbs(DSub(p, price(k2)))
            k  == IF sp = sm THEN k2
                  ELSE IF sp = sl THEN k1
                  ELSE IF ~IsNum(k1) THEN k1 ELSE IF ~IsNum(k2) THEN k2
                  ELSE IF ~IsNum(d1) THEN d1 ELSE IF ~IsNum(d2) THEN d2
                  ELSE IF BGt(d1, d2) THEN k2 ELSE k1
        IN  <<DMul(k, sm), DQuo(k, sl)>>

Ranged(rx, ry, ps, lo, hi) ==
    LET t == DeriveTrans(rx, ry, lo, hi)
    IN  [rng |-> TRUE, rx |-> rx, ry |-> ry, ps |-> ps, lo |-> lo, hi |-> hi,
         tx |-> t[1], ty |-> t[2], xc |-> DAdd(D(rx), t[1]), yc |-> DAdd(D(ry), t[2])]

PoolBad(P) == ~IsNum(P.xc) \/ ~IsNum(P.yc) \/ ~IsNum(P.rx) \/ ~IsNum(P.ry)

\* The computation of the translation aborts, for a reason other than overflow.
Undefined(P) == P.rng /\ (P.xc = Err \/ P.yc = Err)

\* New balances, as orders are placed; derive: with a new translation.
WithBal(P, rx, ry, derive) ==
    IF ~P.rng THEN [P EXCEPT !.rx = rx, !.ry = ry]
    ELSE IF ~IsNum(rx) \/ ~IsNum(ry) THEN [P EXCEPT !.rx = rx, !.ry = ry]
    ELSE IF derive THEN Ranged(rx, ry, P.ps, P.lo, P.hi)
    ELSE [P EXCEPT !.rx = rx, !.ry = ry, !.xc = DAdd(D(rx), P.tx), !.yc = DAdd(D(ry), P.ty)]

Depleted(P) == IF P.rng THEN IsZ(P.ps) \/ (IsZ(P.rx) /\ IsZ(P.ry))
               ELSE IsZ(P.ps) \/ IsZ(P.rx) \/ IsZ(P.ry)

\* A range whose base side is lost in rounding is priced at its upper end.
PoolPrice(P) ==
    IF P.rng THEN IF IsZ(P.rx) /\ IsZ(P.ry) THEN Err
                  ELSE IF IsNum(P.xc) /\ P.yc = Zero THEN P.hi ELSE DQuo(P.xc, P.yc)
    ELSE IF IsZ(P.rx) \/ IsZ(P.ry) THEN Err ELSE DQuo(D(P.rx), D(P.ry))

\* Pools with too many coins to calculate with have no price: they neither buy
\* nor sell, whereas their coins can be withdrawn.
NoPrice(P) == DAdd(D(P.rx), D(P.ry)) = Ovf \/ PoolPrice(P) = Ovf

\* min(floor(dx / p), MaxCoin), MaxCoin on overflow
LOCAL BaseFor(dx, p) ==
    LET a == DTruncInt(DQuoTrunc(dx, p))
    IN  IF a = Ovf THEN MaxCoin ELSE IF ~IsNum(a) THEN a ELSE IF BGt(a, MaxCoin) THEN MaxCoin ELSE a

LOCAL LoOf(P) == IF P.rng THEN P.lo ELSE MinPoolPrice
LOCAL HiOf(P) == IF P.rng THEN P.hi ELSE MaxPoolPrice

\* Base coins the pool buys down to price p, at p.
BuyOver(P, p) ==
    LET q  == IF BLt(p, LoOf(P)) THEN LoOf(P) ELSE p
        pp == PoolPrice(P)
        dx == IF P.rng THEN DSub(P.xc, DMul(q, P.yc)) ELSE DSub(D(P.rx), DMulInt(q, P.ry))
    IN  IF ~IsNum(pp) THEN pp
        ELSE IF BGe(q, pp) THEN Zero
        ELSE IF ~IsNum(dx) THEN dx
        ELSE IF ~IsPos(dx) THEN Zero
        ELSE IF P.rng /\ BGt(dx, D(P.rx)) THEN BaseFor(D(P.rx), p)
        ELSE BaseFor(dx, p)

\* Base coins the pool sells up to price p, at p.
SellUnder(P, p) ==
    LET q  == IF BGt(p, HiOf(P)) THEN HiOf(P) ELSE p
        pp == PoolPrice(P)
        a  == IF P.rng THEN DTruncInt(DSub(P.yc, DQuoUp(P.xc, q)))
              ELSE DTruncInt(DSub(D(P.ry), DQuoUp(D(P.rx), q)))
    IN  IF ~IsNum(pp) THEN pp
        ELSE IF BLe(q, pp) THEN Zero
        ELSE IF ~IsNum(a) THEN a
        ELSE LET b == IF P.rng /\ BGt(a, P.ry) THEN P.ry ELSE a IN IF ~IsPos(b) THEN Zero ELSE BMin(b, MaxCoin)

LOCAL SqrtX(P) == DSqrt(IF P.rng THEN P.xc ELSE D(P.rx))
LOCAL SqrtY(P) == DSqrt(IF P.rng THEN P.yc ELSE D(P.ry))

\* Amount that moves the pool's own price to p (p below / above its price).
BuyTo(P, p) ==
    LET q  == IF BLt(p, LoOf(P)) THEN LoOf(P) ELSE p
        pp == PoolPrice(P)
        s  == DMul(DSqrt(q), DMul(SqrtX(P), SqrtY(P)))
        dx == IF P.rng THEN DSub(D(P.rx), DSub(s, P.tx)) ELSE DSub(D(P.rx), s)
    IN  IF ~IsNum(pp) THEN pp
        ELSE IF BGe(q, pp) THEN Zero
        ELSE IF ~IsNum(dx) THEN dx
        ELSE IF ~IsPos(dx) THEN Zero
        ELSE IF P.rng /\ BGt(dx, D(P.rx)) THEN BaseFor(D(P.rx), p)
        ELSE BaseFor(dx, p)

SellTo(P, p) ==
    LET q  == IF BGt(p, HiOf(P)) THEN HiOf(P) ELSE p
        pp == PoolPrice(P)
        xy == DMul(SqrtX(P), SqrtY(P))
        a  == IF P.rng THEN DTruncInt(DSub(D(P.ry), DSub(DQuoUp(xy, DSqrt(q)), P.ty)))
              ELSE DTruncInt(DSub(D(P.ry), DQuo(xy, DSqrt(q))))
    IN  IF ~IsNum(pp) THEN pp
        ELSE IF BLe(q, pp) THEN Zero
        ELSE IF ~IsNum(a) THEN a
        ELSE LET b == IF P.rng /\ BGt(a, P.ry) THEN P.ry ELSE a IN IF ~IsPos(b) THEN Zero ELSE BMin(b, MaxCoin)

\* ------------------------------------------------------------ pool orders
LOCAL K(n, e) == BMul(BInt(n), BPow10(18 - e))     \* n * 10^-e

\* The distance between two orders of a pool, as a ratio of the price.
GapRatio(pp, cp) ==
    LET x == DQuo(BAbs(DSub(cp, pp)), IF IsZ(pp) THEN DecSmallest ELSE pp)
    IN  IF ~IsNum(x) THEN x
        ELSE IF BLe(x, K(1, 2)) THEN DAdd(DMul(K(7, 3), x), K(3, 5))
        ELSE IF BLe(x, K(2, 2)) THEN DSub(DMul(K(9, 2), x), K(8, 4))
        ELSE IF BLe(x, K(1, 1)) THEN DMul(K(5, 2), x)
        ELSE K(5, 3)

LOCAL Placed(dir, p, a) == [dir |-> dir, price |-> p, amt |-> a]

LOCAL BuyPlaced(P, p, a, derive) ==
    WithBal(P, ISub(P.rx, DCeilInt(DMulInt(p, a))), IAdd(P.ry, a), derive)
LOCAL SellPlaced(P, p, a, derive) ==
    WithBal(P, IAdd(P.rx, DTruncInt(DMulInt(p, a))), ISub(P.ry, a), derive)

(***************************************************************************)
(* The first tick, from tick on in the direction of the ladder, at which   *)
(* the pool would place an order worth placing; <<>> if there is none up   *)
(* to the limit, <<Err>> if the computation aborts.  What the pool buys    *)
(* grows as the price falls and what it sells as the price rises, so the   *)
(* tick is found by bisection.                                             *)
(***************************************************************************)
LOCAL BuyWorth(P, t) == LET a == BuyOver(P, t) IN IF ~IsNum(a) THEN "bad" ELSE IF BLt(a, MinCoin) THEN "no" ELSE "yes"
LOCAL SellWorth(P, t) ==
    LET a == SellUnder(P, t) v == DTruncInt(DMulInt(t, a)) IN
    IF ~IsNum(a) THEN "bad" ELSE IF BLt(a, MinCoin) THEN "no"
    ELSE IF BGe(t, DecOne) THEN "yes"
    ELSE IF ~IsNum(v) THEN "bad" ELSE IF IsZ(v) THEN "no" ELSE "yes"

\* sg: 1 upwards, -1 downwards; W: "yes", "no" or "bad" at a tick.
LOCAL FirstWorth(W(_), from, to, sg, k) ==
    LET i0    == TPos(from, k)
        at(x) == TAt(IF sg > 0 THEN BAdd(i0, x) ELSE BSub(i0, x), k)
        n     == IF sg > 0 THEN BSub(TPos(to, k), i0) ELSE BSub(i0, TPos(to, k))
        w0 == W(from)  w1 == W(to)
    IN  IF w0 = "bad" THEN <<Err>>
        ELSE IF w0 = "yes" THEN <<from>>
        ELSE IF w1 = "bad" THEN <<Err>>
        ELSE IF w1 = "no" THEN <<>>
        ELSE <<at(TBisect(LAMBDA x : W(at(x)) # "no", n))>>

LOCAL FirstBuy(P, t, lo, k) ==
    LET l == TUp(lo, k) IN
    IF BLt(t, l) THEN <<>> ELSE FirstWorth(LAMBDA x : BuyWorth(P, x), t, l, -1, k)
LOCAL FirstSell(P, t, hi, k) ==
    LET h == TDown(hi, k) IN
    IF BGt(t, h) THEN <<>> ELSE FirstWorth(LAMBDA x : SellWorth(P, x), t, h, 1, k)

\* The ladder: t is where the next order may stand, acc the orders so far.
\* An abort leaves no orders at all.
LOCAL Ladder(P, t, acc) == [go |-> IsNum(t), P |-> P, t |-> t, acc |-> IF IsNum(t) THEN acc ELSE <<>>]
LOCAL Stop(w, acc) == [w EXCEPT !.go = FALSE, !.acc = acc]

\* Orders stand at different ticks, even where the gap is lost in rounding.
LOCAL Below(t, x, k) == IF ~IsNum(x) \/ BLt(x, t) THEN x ELSE TPrev(t, k)
LOCAL Above(t, x, k) == IF ~IsNum(x) \/ BGt(x, t) THEN x ELSE TNext(t, k)

LOCAL BuyLoop(P, pp, t, lo, k, acc) ==
    LET step(w) ==
          LET f == FirstBuy(w.P, w.t, lo, k) IN
          IF f = <<>> THEN Stop(w, w.acc)
          ELSE IF ~IsNum(f[1]) THEN Stop(w, <<>>)
          ELSE LET tick == f[1]
                   a    == BuyOver(w.P, tick)
                   Q    == BuyPlaced(w.P, tick, a, FALSE)
                   acc2 == Append(w.acc, Placed("b", tick, a))
               IN  IF PoolBad(Q) THEN Stop(w, <<>>)
                   ELSE IF ~IsPos(Q.rx) THEN Stop(w, acc2)
                   ELSE Ladder(Q, Below(tick, TDown(DMul(tick, DSub(DecOne, GapRatio(pp, tick))), k), k), acc2)
    IN  Loop(step, Ladder(P, t, acc)).acc

PoolBuys(P, lo, hi, k) ==
    LET pp == PoolPrice(P) IN
    IF ~IsNum(pp) \/ NoPrice(P) THEN <<>>
    ELSE IF BLe(pp, lo) THEN <<>>
    ELSE LET a0  == IF BGt(pp, hi) THEN BuyTo(P, hi) ELSE Zero
         IN  IF ~IsNum(a0) THEN <<>>
             ELSE LET put == BGt(pp, hi) /\ BGe(a0, MinCoin)
                      Q   == IF put THEN BuyPlaced(P, hi, a0, TRUE) ELSE P
                      qp  == IF PoolBad(Q) THEN Err ELSE PoolPrice(Q)
                  IN  IF ~IsNum(qp) THEN <<>>
                      ELSE BuyLoop(Q, pp, TDown(BMin(hi, qp), k), lo, k,
                                         IF put THEN <<Placed("b", hi, a0)>> ELSE <<>>)

LOCAL SellLoop(P, pp, t, hi, k, acc) ==
    LET step(w) ==
          LET f == FirstSell(w.P, w.t, hi, k) IN
          IF f = <<>> THEN Stop(w, w.acc)
          ELSE IF ~IsNum(f[1]) THEN Stop(w, <<>>)
          ELSE LET tick == f[1]
                   a    == SellUnder(w.P, tick)
                   Q    == SellPlaced(w.P, tick, a, FALSE)
                   acc2 == Append(w.acc, Placed("s", tick, a))
               IN  IF PoolBad(Q) THEN Stop(w, <<>>)
                   ELSE IF ~BGt(Q.ry, MinCoin) THEN Stop(w, acc2)
                   ELSE Ladder(Q, Above(tick, TUp(DMul(tick, DAdd(DecOne, GapRatio(pp, tick))), k), k), acc2)
    IN  Loop(step, Ladder(P, t, acc)).acc

PoolSells(P, lo, hi, k) ==
    LET pp == PoolPrice(P) IN
    IF ~IsNum(pp) \/ NoPrice(P) THEN <<>>
    ELSE IF BGe(pp, hi) THEN <<>>
    ELSE LET a0 == IF BLt(pp, lo) THEN SellTo(P, lo) ELSE Zero
             v0 == DTruncInt(DMulInt(lo, a0))
         IN  IF ~IsNum(a0) \/ (IsNum(a0) /\ BGe(a0, MinCoin) /\ ~IsNum(v0)) THEN <<>>
             ELSE LET put == BLt(pp, lo) /\ BGe(a0, MinCoin) /\ IsPos(v0)
                      Q   == IF put THEN SellPlaced(P, lo, a0, TRUE) ELSE P
                      qp  == IF PoolBad(Q) THEN Err ELSE PoolPrice(Q)
                  IN  IF ~IsNum(qp) THEN <<>>
                      ELSE SellLoop(Q, pp, TUp(BMax(lo, qp), k), hi, k,
                                          IF put THEN <<Placed("s", lo, a0)>> ELSE <<>>)

\* Everything pool id quotes inside [lo, hi].
PoolOrders(P, id, lo, hi, k) ==
    LET ps == PoolBuys(P, lo, hi, k) \o PoolSells(P, lo, hi, k)
    IN  [i \in DOMAIN ps |->
           NewOrd("pool", id, ps[i].dir, ps[i].price, ps[i].amt,
                  OfferFor(ps[i].dir, ps[i].price, ps[i].amt), 0)]

\* ------------------------------------------------------------ creation
InitSupply(x, y) == BPow10((BDigits(x) + BDigits(y) + 1) \div 2)

\* [ok, rx, ry, ps]
CreateBasic(x, y) ==
    LET p == DQuo(D(x), D(y)) IN
    IF IsZ(x) \/ IsZ(y) THEN [ok |-> FALSE]
    ELSE IF ~IsNum(p) THEN [ok |-> FALSE]
    ELSE IF BLt(p, MinPoolPrice) \/ BGt(p, MaxPoolPrice) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, rx |-> x, ry |-> y, ps |-> InitSupply(x, y)]

RangeOK(lo, hi, ini) ==
    /\ IsNum(lo) /\ IsNum(hi) /\ IsNum(ini)
    /\ IsPos(ini) /\ BGe(lo, MinPoolPrice) /\ IsPos(hi) /\ BLe(hi, MaxPoolPrice)
    /\ BGt(hi, lo)
    /\ BGe(DQuo(BSub(hi, lo), lo), MinGapRatio)
    /\ BGe(ini, lo) /\ BLe(ini, hi)

CreateRanged(x, y, lo, hi, ini) ==
    LET sp == DSqrt(ini) sm == DSqrt(lo) sl == DSqrt(hi)
        dinv == DSub(DInv(sp), DInv(sl))
        ay0 == DCeilInt(DMul(DQuo(D(x), DSub(sp, sm)), dinv))
        ax1 == DCeilInt(DMul(DQuo(D(y), dinv), DSub(sp, sm)))
        a   == IF ini = lo THEN <<Zero, y>>
               ELSE IF ini = hi THEN <<x, Zero>>
               ELSE IF ~IsNum(ay0) THEN <<ay0, ay0>>
               ELSE IF BGt(ay0, y) THEN <<ax1, y>> ELSE <<x, ay0>>
        P   == Ranged(a[1], a[2], Zero, lo, hi)
    IN  IF ~IsPos(x) /\ ~IsPos(y) THEN [ok |-> FALSE]
        ELSE IF ~RangeOK(lo, hi, ini) THEN [ok |-> FALSE]
        ELSE IF ~IsNum(a[1]) \/ ~IsNum(a[2]) THEN [ok |-> FALSE]
        ELSE IF Undefined(P) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, rx |-> a[1], ry |-> a[2], ps |-> InitSupply(a[1], a[2])]

\* ------------------------------------------------------------ liquidity
\* Deposit of x, y: [ax, ay] accepted, pc minted; rounded in favour of the pool.
DepositCalc(rx, ry, ps, x, y) ==
    LET rxd == D(rx) ryd == D(ry) psd == D(ps)
        fx == DQuoTrunc(D(x), rxd)
        fy == DQuoTrunc(D(y), ryd)
        ratio == IF IsZ(rx) THEN fy ELSE IF IsZ(ry) THEN fx ELSE BMin(fx, fy)
        pc == DTruncInt(DMulTrunc(psd, ratio))
        mp == DQuo(D(pc), psd)
        ax == DCeilInt(DMul(rxd, mp))
        ay == DCeilInt(DMul(ryd, mp))
        bad == <<pc, ax, ay>>
    IN  IF AnyPoison(bad)
        THEN IF FirstPoison(bad) = Ovf THEN [bad |-> FALSE, ax |-> Zero, ay |-> Zero, pc |-> Zero]
             ELSE [bad |-> TRUE, ax |-> Zero, ay |-> Zero, pc |-> Zero]
        ELSE [bad |-> FALSE, ax |-> ax, ay |-> ay, pc |-> pc]

\* Withdrawal of pc pool coins: floors, after the fee; the last pool coins
\* take everything.
WithdrawCalc(rx, ry, ps, pc, fee) ==
    IF pc = ps THEN [bad |-> FALSE, x |-> rx, y |-> ry]
    ELSE LET prop == DQuoTrunc(D(pc), D(ps))
             mul  == DSub(DecOne, fee)
             x == DTruncInt(DMulTrunc(DMulTrunc(D(rx), prop), mul))
             y == DTruncInt(DMulTrunc(DMulTrunc(D(ry), prop), mul))
             bad == <<x, y>>
         IN  IF AnyPoison(bad)
             THEN [bad |-> FirstPoison(bad) # Ovf, x |-> Zero, y |-> Zero]
             ELSE [bad |-> FALSE, x |-> x, y |-> y]

(***************************************************************************)
(* The first price of a pair: from the whole demand and supply curves,     *)
(* user book S and pools Ps (a sequence of [id, P]).                       *)
(***************************************************************************)
LOCAL TickSums(S, ts) == [k \in DOMAIN ts |-> [p |-> ts[k].p, m |-> TotMatch(S, ts[k].ix, ts[k].p)]]

FirstPrice(S, Ps, k) ==    \* [f: found, p, bad]
    LET bs == TickSums(S, S.b)
        ss == TickSums(S, S.s)
        buy(p)  == FoldLeft(LAMBDA a, e : IAdd(a, BuyOver(e.P, p)),
                            FoldLeft(LAMBDA a, e : IF BGe(e.p, p) THEN IAdd(a, e.m) ELSE a, Zero, bs), Ps)
        sell(p) == FoldLeft(LAMBDA a, e : IAdd(a, SellUnder(e.P, p)),
                            FoldLeft(LAMBDA a, e : IF BLe(e.p, p) THEN IAdd(a, e.m) ELSE a, Zero, ss), Ps)
        pps   == [i \in DOMAIN Ps |-> PoolPrice(Ps[i].P)]
        bests(ts) == (IF ts = <<>> THEN <<>> ELSE <<ts[1].p>>) \o pps
        hb == FoldLeft(LAMBDA a, p : BMax(a, p), Zero, bests(bs))
        sl == bests(ss)
        ls == FoldLeft(LAMBDA a, p : BMin(a, p), sl[1], sl)
        lowI == TIndex(TLowest(k), k)
        hiI  == TIndex(THighest(k), k)
        n    == BSub(hiI, lowI)
        condI(i) == LET s == sell(TFromIndex(i, k)) IN IsPos(s) /\ BLe(buy(TFromIndex(BAdd(i, One), k)), s)
        condJ(j) == LET b == buy(TFromIndex(j, k)) IN IsPos(b) /\ BGe(b, sell(TFromIndex(BSub(j, One), k)))
        xI == TBisect(LAMBDA x : condI(BAdd(lowI, x)), n)
        xJ == TBisect(LAMBDA x : condJ(BSub(hiI, x)), n)
        none == [f |-> FALSE, p |-> Zero, bad |-> FALSE]
    IN  IF \E i \in DOMAIN pps : ~IsNum(pps[i]) THEN [none EXCEPT !.bad = TRUE]
        ELSE IF \E i \in DOMAIN bs : ~IsNum(bs[i].m) THEN [none EXCEPT !.bad = TRUE]
        ELSE IF \E i \in DOMAIN ss : ~IsNum(ss[i].m) THEN [none EXCEPT !.bad = TRUE]
        ELSE IF bests(bs) = <<>> \/ sl = <<>> THEN none
        ELSE IF BLt(hb, ls) THEN none
        ELSE IF BGt(xI, n) \/ BGt(xJ, n) THEN none
        ELSE [f |-> TRUE, bad |-> FALSE,
              p |-> TRound(DQuoInt(DAdd(TFromIndex(BAdd(lowI, xI), k), TFromIndex(BSub(hiI, xJ), k)), 2), k)]

\* Match a pair without a last price.
MatchFirst(S, Ps, k) ==
    LET f == FirstPrice(S, Ps, k) IN
    IF f.bad THEN [S |-> [S EXCEPT !.bad = TRUE], p |-> Zero, m |-> FALSE]
    ELSE IF ~f.f THEN [S |-> S, p |-> Zero, m |-> FALSE]
    ELSE LET one(T, e) ==
               LET b == BuyOver(e.P, f.p)  s == SellUnder(e.P, f.p)
                   T1 == IF IsPos(b) THEN AddOrd(T, NewOrd("pool", e.id, "b", f.p, b, OfferFor("b", f.p, b), 0)) ELSE T
                   T2 == IF IsPos(s) THEN AddOrd(T1, NewOrd("pool", e.id, "s", f.p, s, s, 0)) ELSE T1
               IN  IF ~IsNum(b) \/ ~IsNum(s) THEN [T EXCEPT !.bad = TRUE] ELSE T2
             T == FoldLeft(one, S, Ps)
             r == IF T.bad THEN [S |-> T, m |-> FALSE] ELSE MatchAt(T, f.p)
         IN  [S |-> r.S, p |-> f.p, m |-> r.m]
=============================================================================
