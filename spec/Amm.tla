-------------------------------- MODULE Amm ---------------------------------
(***************************************************************************)
(* The batch auction: order books and matching.                            *)
(*                                                                         *)
(* An order of a book is a record                                          *)
(*   kind  "user" | "pool"      id    order id, or pool id                 *)
(*   dir   "b" | "s"            batch batch in which it was placed, 0: pool *)
(*   price tick                 amt   amount at the start of this batch    *)
(*   offer coins it may spend   open  amount not matched yet               *)
(*   paid, recv                 coins paid and received in this batch      *)
(*                                                                         *)
(* A book S is [o: orders, b: buy ticks (highest price first), s: sell     *)
(* ticks (lowest first), q: quote coins paid by the buyers minus quote     *)
(* coins received by the sellers, bad: an arithmetic abort happened].      *)
(* A tick is [p: price, ix: indices into o in order of insertion].         *)
(***************************************************************************)
EXTENDS Tick, SequencesExt, FiniteSets, TLC

\* Repeat step while its result says go.  (TLC evaluates deep recursion in
\* time quadratic in its depth.)
LOCAL I64  == [i \in 1..64 |-> i]
LOCAL I256 == [i \in 1..256 |-> i]
Loop(step(_), w0) ==
    FoldLeft(LAMBDA v, i : IF v.go THEN FoldLeft(LAMBDA w, j : IF w.go THEN step(w) ELSE w, v, I64) ELSE v,
             w0, I256)

MinCoin == BInt(100)
MaxCoin == BPow10(40)

AnyPoison(s) == \E i \in DOMAIN s : ~IsNum(s[i])
FirstPoison(s) == s[CHOOSE i \in DOMAIN s : ~IsNum(s[i]) /\ \A j \in 1..(i-1) : IsNum(s[j])]

NewOrd(kind, id, dir, price, amt, offer, batch) ==
    [kind |-> kind, id |-> id, dir |-> dir, price |-> price, amt |-> amt,
     offer |-> offer, batch |-> batch, open |-> amt, paid |-> Zero, recv |-> Zero]

\* Coins an order of amt at price must offer.
OfferFor(dir, price, amt) ==
    IF dir = "b" THEN DCeilInt(DMulInt(price, amt)) ELSE amt

EmptyBook == [o |-> <<>>, b |-> <<>>, s |-> <<>>, q |-> Zero, bad |-> FALSE]

\* What the order can trade at price p: limited by its open amount, by the
\* coins it has left, and nothing if it would be worth less than one quote coin.
Matchable(o, p) ==
    LET m == IF o.dir = "b"
             THEN BMin(o.open, DTruncInt(DQuoTrunc(D(BSub(o.offer, o.paid)), p)))
             ELSE o.open
        v == DTruncInt(DMulInt(p, m))
    IN  IF ~IsNum(v) THEN v ELSE IF IsZ(v) THEN Zero ELSE m

TotMatch(S, ix, p) == FoldLeft(LAMBDA a, i : IAdd(a, Matchable(S.o[i], p)), Zero, ix)

\* ------------------------------------------------------------ building
\* Number of ticks before price p, of those from i on up to j (a bisection).
RECURSIVE LOCAL_Before(_, _, _, _, _)
LOCAL_Before(ticks, buy, p, i, j) ==
    IF i > j THEN i - 1
    ELSE LET h == (i + j) \div 2 IN
         IF (IF buy THEN BGt(ticks[h].p, p) ELSE BLt(ticks[h].p, p))
         THEN LOCAL_Before(ticks, buy, p, h + 1, j)
         ELSE LOCAL_Before(ticks, buy, p, i, h - 1)

LOCAL InsTick(ticks, buy, p, n) ==
    LET k == LOCAL_Before(ticks, buy, p, 1, Len(ticks))
    IN  IF k < Len(ticks) /\ ticks[k+1].p = p
        THEN [ticks EXCEPT ![k+1].ix = Append(@, n)]
        ELSE SubSeq(ticks, 1, k) \o <<[p |-> p, ix |-> <<n>>]>> \o SubSeq(ticks, k+1, Len(ticks))

AddOrd(S, o) ==
    LET m == Matchable(o, o.price) IN
    IF ~IsNum(m) THEN [S EXCEPT !.bad = TRUE]
    ELSE IF ~IsPos(m) THEN S
    ELSE LET n == Len(S.o) + 1 IN
         IF o.dir = "b"
         THEN [S EXCEPT !.o = Append(@, o), !.b = InsTick(@, TRUE, o.price, n)]
         ELSE [S EXCEPT !.o = Append(@, o), !.s = InsTick(@, FALSE, o.price, n)]

AddOrds(S, os) == FoldLeft(AddOrd, S, os)

\* ------------------------------------------------------------ filling
\* Trade amt of order i at price p.  Buyers pay the ceiling of the value,
\* sellers receive its floor; the difference is dust.
Fill(S, i, amt, p) ==
    LET o    == S.o[i]
        v    == DMulInt(p, amt)
        paid == IF o.dir = "b" THEN DCeilInt(v) ELSE amt
        recv == IF o.dir = "b" THEN amt ELSE DTruncInt(v)
        o2   == [o EXCEPT !.paid = BAdd(@, paid), !.recv = BAdd(@, recv), !.open = BSub(@, amt)]
    IN  IF ~IsNum(paid) \/ ~IsNum(recv) THEN [S EXCEPT !.bad = TRUE]
        ELSE [S EXCEPT !.o[i] = o2, !.q = IF o.dir = "b" THEN BAdd(@, paid) ELSE BSub(@, recv)]

FulfillAll(S, ix, p) ==
    FoldLeft(LAMBDA T, i : LET m == Matchable(T.o[i], p) IN
                           IF ~IsNum(m) THEN [T EXCEPT !.bad = TRUE]
                           ELSE IF IsPos(m) THEN Fill(T, i, m, p) ELSE T,
             S, ix)

\* Priority inside a batch: larger amount, then users by order id, then
\* pools by pool id.
Prior(a, b) ==
    IF a.amt # b.amt THEN BGt(a.amt, b.amt)
    ELSE IF a.kind # b.kind THEN a.kind = "user"
    ELSE a.id < b.id

LOCAL SortIx(S, ix) ==          \* stable
    LET rank(k) == Cardinality({j \in DOMAIN ix :
                       \/ Prior(S.o[ix[j]], S.o[ix[k]])
                       \/ (~Prior(S.o[ix[k]], S.o[ix[j]]) /\ j < k)})
        at(r)   == CHOOSE k \in DOMAIN ix : rank(k) = r - 1
    IN  [r \in DOMAIN ix |-> ix[at(r)]]

(***************************************************************************)
(* Distribute amt over the orders ix (sorted by priority), in proportion   *)
(* to their amounts, the remainder of the truncations by priority.  Orders *)
(* that would get nothing, and sell orders that would get less than one    *)
(* quote coin, step back and the distribution starts over without them.    *)
(* Result: [S, m], m the amount really matched, which may be less than amt *)
(* for sell orders.                                                        *)
(***************************************************************************)
RECURSIVE DistOrders(_, _, _, _)
DistOrders(S, ix, amt, p) ==
    LET n   == Len(ix)
        tot == FoldLeft(LAMBDA a, i : IAdd(a, S.o[i].amt), Zero, ix)
        mm  == [k \in 1..n |-> Matchable(S.o[ix[k]], p)]
        sh  == [k \in 1..n |->
                  IF ~IsNum(mm[k]) THEN mm[k] ELSE IF IsZ(mm[k]) THEN Zero
                  ELSE BMin(mm[k], DTruncInt(DMulInt(DQuoTrunc(D(S.o[ix[k]].amt), D(tot)), amt)))]
    IN
    IF AnyPoison(mm) \/ AnyPoison(sh) \/ ~IsNum(tot) THEN [S |-> [S EXCEPT !.bad = TRUE], m |-> Zero]
    ELSE
    LET rem0 == FoldLeft(BSub, amt, sh)
        fin  == FoldLeft(LAMBDA st, k :
                     LET take == BMin(st.rem, BSub(mm[k], sh[k]))
                     IN  [rem |-> BSub(st.rem, take), m |-> Append(st.m, BAdd(sh[k], take))],
                     [rem |-> rem0, m |-> <<>>], [k \in 1..n |-> k])
        m    == fin.m
        val  == [k \in 1..n |-> IF S.o[ix[k]].dir = "s" THEN DTruncInt(DMulInt(p, m[k])) ELSE One]
        ok(k) == ~IsZ(m[k]) /\ IsPos(val[k])
        kept == SelectSeq([k \in 1..n |-> k], ok)
    IN  IF AnyPoison(val) THEN [S |-> [S EXCEPT !.bad = TRUE], m |-> Zero]
        ELSE IF Len(kept) = n
        THEN [S |-> FoldLeft(LAMBDA T, k : Fill(T, ix[k], m[k], p), S, [k \in 1..n |-> k]),
              m |-> FoldLeft(BAdd, Zero, m)]
        ELSE IF kept = <<>> THEN DistOrders(S, SubSeq(ix, 1, n-1), amt, p)
        ELSE DistOrders(S, [k \in DOMAIN kept |-> ix[kept[k]]], amt, p)

(***************************************************************************)
(* Distribute amt at one tick: orders of earlier batches first (pool       *)
(* orders, batch 0, last), a batch that cannot be filled completely by     *)
(* DistOrders.                                                             *)
(***************************************************************************)
LOCAL Batches(S, ix) ==
    LET bs == {S.o[ix[k]].batch : k \in DOMAIN ix}
        us == SetToSortSeq(bs \ {0}, <)
    IN  IF 0 \in bs THEN Append(us, 0) ELSE us

DistTick(S, ix, amt, p) ==
    LET step(st, b) ==
          IF IsZ(st.rem) \/ st.S.bad THEN st
          ELSE LET g    == SelectSeq(ix, LAMBDA i : st.S.o[i].batch = b)
                   open == TotMatch(st.S, g, p)
               IN  IF ~IsNum(open) THEN [st EXCEPT !.S.bad = TRUE]
                   ELSE IF IsZ(open) THEN st
                   ELSE IF BGe(st.rem, open)
                   THEN [S |-> FulfillAll(st.S, g, p), rem |-> BSub(st.rem, open), m |-> BAdd(st.m, open)]
                   ELSE LET r == DistOrders(st.S, SortIx(st.S, g), st.rem, p)
                        IN  [S |-> r.S, rem |-> Zero, m |-> BAdd(st.m, r.m)]
        r == FoldLeft(step, [S |-> S, rem |-> amt, m |-> Zero], Batches(S, ix))
    IN  [S |-> r.S, m |-> r.m]

\* ------------------------------------------------------------ one price
\* The largest amount that buy orders at p or higher and sell orders at p or
\* lower can trade at p such that every tick that takes part trades
\* something (on the sell side, something worth a quote coin); Zero if none.
LOCAL Shrink(S, p, bt0, st0, nb, ns) ==
    LET end(w, a) == [w EXCEPT !.go = FALSE, !.a = a]
        step(w) ==
          LET ma1 == BMin(w.bt, w.st)
              bo  == BSub(w.bt, TotMatch(S, S.b[w.bi].ix, p))
              dropB == BGe(bo, ma1)
              bt2 == IF dropB THEN bo ELSE w.bt
              bi2 == IF dropB THEN w.bi - 1 ELSE w.bi
              ma2 == BMin(bt2, w.st)
              so  == BSub(w.st, TotMatch(S, S.s[w.si].ix, p))
              dropS == BGe(so, ma2) \/ IsZ(DTruncInt(DMulInt(p, BSub(ma2, so))))
          IN  IF dropB /\ w.bi = 1 THEN end(w, Zero)
              ELSE IF dropS /\ w.si = 1 THEN end(w, Zero)
              ELSE IF ~dropB /\ ~dropS THEN end(w, ma2)
              ELSE [w EXCEPT !.bt = bt2, !.bi = bi2, !.st = IF dropS THEN so ELSE @, !.si = IF dropS THEN @ - 1 ELSE @]
    IN  Loop(step, [go |-> TRUE, bt |-> bt0, st |-> st0, bi |-> nb, si |-> ns, a |-> Zero]).a

FindAmt(S, p) ==       \* [f: found, a: amount, bad]
    LET nb == Cardinality({k \in DOMAIN S.b : BGe(S.b[k].p, p)})
        ns == Cardinality({k \in DOMAIN S.s : BLe(S.s[k].p, p)})
        bm == [k \in 1..nb |-> TotMatch(S, S.b[k].ix, p)]
        sm == [k \in 1..ns |-> TotMatch(S, S.s[k].ix, p)]
    IN  IF nb = 0 THEN [f |-> FALSE, a |-> Zero, bad |-> FALSE]
        ELSE IF AnyPoison(bm) THEN [f |-> FALSE, a |-> Zero, bad |-> TRUE]
        ELSE IF ns = 0 THEN [f |-> FALSE, a |-> Zero, bad |-> FALSE]
        ELSE IF AnyPoison(sm) THEN [f |-> FALSE, a |-> Zero, bad |-> TRUE]
        ELSE LET bt == FoldLeft(IAdd, Zero, bm)
                 st == FoldLeft(IAdd, Zero, sm)
             IN  IF ~IsNum(bt) \/ ~IsNum(st) \/ ~IsNum(DTruncInt(DMulInt(p, bt))) \/ ~IsNum(DTruncInt(DMulInt(p, st)))
                 THEN [f |-> FALSE, a |-> Zero, bad |-> TRUE]
                 ELSE LET a == Shrink(S, p, bt, st, nb, ns)
                      IN  [f |-> ~IsZ(a), a |-> a, bad |-> FALSE]

LOCAL DistTicks(S, ticks, amt, p) ==     \* [S, m]
    LET step(st, t) ==
          IF IsZ(st.rem) \/ st.S.bad THEN st
          ELSE LET ta == TotMatch(st.S, t.ix, p)
               IN  IF ~IsNum(ta) THEN [st EXCEPT !.S.bad = TRUE]
                   ELSE IF BLe(ta, st.rem)
                   THEN [S |-> FulfillAll(st.S, t.ix, p), rem |-> BSub(st.rem, ta), m |-> BAdd(st.m, ta)]
                   ELSE LET r == DistTick(st.S, t.ix, st.rem, p)
                        IN  [S |-> r.S, rem |-> Zero, m |-> BAdd(st.m, r.m)]
        r == FoldLeft(step, [S |-> S, rem |-> amt, m |-> Zero], ticks)
    IN  [S |-> r.S, m |-> r.m]

\* Match everything that can be matched at p: the sell side first, the buy
\* side for exactly the amount the sell side could give.
MatchAt(S, p) ==       \* [S, m: matched?]
    LET f == FindAmt(S, p) IN
    IF f.bad THEN [S |-> [S EXCEPT !.bad = TRUE], m |-> FALSE]
    ELSE IF ~f.f THEN [S |-> S, m |-> FALSE]
    ELSE LET r1 == DistTicks(S, S.s, f.a, p)
             r2 == DistTicks(r1.S, S.b, r1.m, p)
         IN  IF IsZ(r1.m) THEN [S |-> S, m |-> FALSE] ELSE [S |-> r2.S, m |-> TRUE]

\* ------------------------------------------------------------ the batch
\* Where the price moves: compare, at the last price, the demand above it
\* with the supply at or below it, and the supply below it with the demand
\* at or above it.
PriceDir(S, last) ==   \* "inc" | "dec" | "stay" | "bad"
    LET at(ts)   == {k \in DOMAIN ts : ts[k].p = last}
        nb   == Cardinality({k \in DOMAIN S.b : BGt(S.b[k].p, last)})
        ns   == Cardinality({k \in DOMAIN S.s : BLt(S.s[k].p, last)})
        sum(ts, n) == FoldLeft(LAMBDA a, k : IAdd(a, TotMatch(S, ts[k].ix, last)), Zero, [k \in 1..n |-> k])
        one(ts)  == IF at(ts) = {} THEN Zero ELSE TotMatch(S, ts[CHOOSE k \in at(ts) : TRUE].ix, last)
        bo == sum(S.b, nb)   ba == one(S.b)
        so == sum(S.s, ns)   sa == one(S.s)
        sx == IAdd(sa, so)   bx == IAdd(ba, bo)
    IN  IF AnyPoison(<<bo, ba, so, sa, sx, bx>>) THEN "bad"
        ELSE IF BGt(bo, sx) THEN "inc"
        ELSE IF BGt(so, bx) THEN "dec" ELSE "stay"

\* Tick by tick, at the price of the side that gives way.
LOCAL Walk(S0, dir, last, m0) ==
    LET step(w) ==
          LET S  == w.S
              p  == IF dir = "inc" THEN S.s[w.si].p ELSE S.b[w.bi].p
              ba == TotMatch(S, S.b[w.bi].ix, p)
              sa == TotMatch(S, S.s[w.si].ix, p)
              r1 == DistTick(S, S.s[w.si].ix, BMin(ba, sa), p)
              r2 == DistTick(r1.S, S.b[w.bi].ix, r1.m, p)
              hit == ~IsZ(r1.m)
          IN  IF S.bad \/ w.bi > Len(S.b) \/ w.si > Len(S.s) THEN [w EXCEPT !.go = FALSE]
              ELSE IF BLt(S.b[w.bi].p, S.s[w.si].p) THEN [w EXCEPT !.go = FALSE]
              ELSE IF ~IsNum(ba) \/ ~IsNum(sa) THEN [w EXCEPT !.go = FALSE, !.S.bad = TRUE]
              ELSE IF ~IsPos(ba) THEN [w EXCEPT !.bi = @ + 1]
              ELSE IF ~IsPos(sa) THEN [w EXCEPT !.si = @ + 1]
              ELSE [go |-> TRUE, S |-> IF hit THEN r2.S ELSE r1.S,
                    bi |-> IF BLe(ba, sa) THEN w.bi + 1 ELSE w.bi,
                    si |-> IF BLe(sa, ba) THEN w.si + 1 ELSE w.si,
                    p |-> IF hit THEN p ELSE w.p, m |-> w.m \/ hit]
    IN  Loop(step, [go |-> TRUE, S |-> S0, bi |-> 1, si |-> 1, p |-> last, m |-> m0])

\* Match a book of a pair whose last price is last: [S, p: new price, m].
MatchBook(S, last) ==
    IF S.b = <<>> \/ S.s = <<>> THEN [S |-> S, p |-> last, m |-> FALSE]
    ELSE LET dir == PriceDir(S, last)
         IN  IF dir = "bad" THEN [S |-> [S EXCEPT !.bad = TRUE], p |-> last, m |-> FALSE]
             ELSE LET r == MatchAt(S, last)
                  IN  IF dir = "stay" \/ r.S.bad THEN [S |-> r.S, p |-> last, m |-> r.m]
                      ELSE LET w == Walk(r.S, dir, last, r.m) IN [S |-> w.S, p |-> w.p, m |-> w.m]
=============================================================================
