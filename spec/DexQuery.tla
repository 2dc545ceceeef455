------------------------------ MODULE DexQuery ------------------------------
(***************************************************************************)
(* What the exchange answers when it is asked: every lookup, listing and   *)
(* page is a function of the state (C16), and so is the order book it      *)
(* shows (C24).  q is a recorded query with its answer.                    *)
(***************************************************************************)
EXTENDS DexLaws

\* ------------------------------------------------------------ lists
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Slice(s, off, n) == IF off >= Len(s) THEN <<>> ELSE SubSeq(s, off + 1, Min({Len(s), off + n}))

\* A listing has every entry of want (a sequence without duplicates) once,
\* and its pages are parts of the whole.
Listing(q, want) ==
    IF q.r # "ok" THEN {"a listing is refused"}
    ELSE Cl("a listing shows exactly what it asks for", Len(q.full) = Len(want) /\ Range(q.full) = Range(want))
         \cup Cl("pages make up the whole", q.walked /\ Flat(q.pages) = q.full /\ \A k \in DOMAIN q.pages : Len(q.pages[k]) <= q.lim)
         \cup Cl("a page is a part of the whole", q.page = Slice(q.full, q.off, q.lim) /\ q.tot = Len(q.full))
         \cup Cl("the other way round", q.rev = Reverse(q.full))

Refused(q) == Cl("a bad request is refused", q.r = "rej")
\* The entry with index set ks (at most one).
One1(q, ks, seq) ==
    IF ks = {} THEN Cl("nothing is found that is not there", q.r = "rej")
    ELSE Cl("the entry is found", q.r = "ok" /\ q.x = seq[CHOOSE k \in ks : TRUE])

\* Requests as they are, coins in the order of their denominations.
Sel(s, P(_)) == SelectSeq(s, P)

\* ------------------------------------------------------------ pools
\* A pool has a price while it has reserves, not too many, and pool coins.
PoolShown(st, k) ==
    LET p == st.pools[k]  pr == PairOf(st, p.pair) IN
    [id |-> p.id, pair |-> p.pair, typ |-> p.typ, creator |-> p.creator, res |-> p.res, pcd |-> p.pcd,
     min |-> p.min, max |-> p.max, ldep |-> p.ldep, lwd |-> p.lwd, dis |-> p.dis,
     sup |-> PsOf(st, p), price |-> IF p.dis \/ DepletedNow(st, p) \/ NoPrice(AmmOf(st, p)) THEN <<>>
                                ELSE <<PoolPrice(AmmOf(st, p))>>,
     base |-> <<pr.base, RyOf(st, p)>>, quote |-> <<pr.quote, RxOf(st, p)>>]
PoolsShown(st, ks) == [j \in DOMAIN ks |-> PoolShown(st, ks[j])]
PoolFound(q, st, ks) ==
    IF ks = {} THEN Cl("nothing is found that is not there", q.r = "rej")
    ELSE Cl("the pool is found", q.r = "ok" /\ q.x = PoolShown(st, CHOOSE k \in ks : TRUE))

\* ------------------------------------------------------------ order books
BookOf(st, pr) ==
    LET last  == pr.last[1]
        ks    == SelectSeq([k \in DOMAIN st.orders |-> k], LAMBDA k : st.orders[k].pair = pr.id /\ IsLive(st.orders[k]))
        lo    == LimLo(st, last)  hi == LimHi(st, last)
        S0    == AddOrds(EmptyBook, [j \in DOMAIN ks |-> UserOrd(st.orders[ks[j]])])
        ps    == SelectSeq(PairPoolIx(st, pr.id), LAMBDA k :
                     LET p == st.pools[k] IN
                     ~p.dis /\ ~(IF p.typ = "ranged" THEN IsZ(RxOf(st, p)) /\ IsZ(RyOf(st, p)) ELSE IsZ(RxOf(st, p)) \/ IsZ(RyOf(st, p))))
    IN  FoldLeft(LAMBDA S, k : AddOrds(S, PoolOrders(AmmOf(st, st.pools[k]), st.pools[k].id, lo, hi, st.par.tp)), S0, ps)

\* Amounts that can be traded, summed up from the best price.
Sums(S, ts) == LET a == [k \in DOMAIN ts |-> TotMatch(S, ts[k].ix, ts[k].p)]
               IN  FoldLeft(LAMBDA acc, k : Append(acc, [p |-> ts[k].p, s |-> BAdd(IF acc = <<>> THEN Zero ELSE acc[Len(acc)].s, a[k])]),
                            <<>>, [k \in DOMAIN ts |-> k])
LOCAL Upto(v, n) == IF n = 0 THEN Zero ELSE v[n].s
BookBuys(v, p)   == Upto(v, Cardinality({k \in DOMAIN v : BGe(v[k].p, p)}))
BookSells(v, p) == Upto(v, Cardinality({k \in DOMAIN v : BLe(v[k].p, p)}))

\* What is left when everything that crosses has been matched.
Unmatched(vb, vs) ==
    IF vb = <<>> \/ vs = <<>> THEN [b |-> vb, s |-> vs]
    ELSE LET nb == Cardinality({k \in DOMAIN vb : ~BGt(BookBuys(vb, vb[k].p), BookSells(vs, vb[k].p))})
             ns == Cardinality({k \in DOMAIN vs : ~BGt(BookSells(vs, vs[k].p), BookBuys(vb, vs[k].p))})
             m  == BMax(Upto(vb, nb), Upto(vs, ns))
             cut(v, n) == [k \in DOMAIN v |-> [p |-> v[k].p, s |-> IF k <= n THEN Zero ELSE BSub(v[k].s, m)]]
         IN  [b |-> cut(vb, nb), s |-> cut(vs, ns)]

\* The prices with something left, from the best, with what is left there.
Left(v) ==
    LET inc(k) == BSub(v[k].s, IF k = 1 THEN Zero ELSE v[k-1].s)
        ks == SelectSeq([k \in DOMAIN v |-> k], LAMBDA k : IsPos(inc(k)))
    IN  [j \in DOMAIN ks |-> [p |-> v[ks[j]].p, a |-> inc(ks[j])]]

FitDown(p, u) == BMul(BQuo(p, u), u)
FitUp(p, u)   == LET t == FitDown(p, u) IN IF t = p THEN t ELSE BAdd(t, u)

\* Group by level, best first, at most n levels that satisfy OK.
Levels(left, Fit(_), OK(_), n) ==
    LET add(acc, x) == LET l == Fit(x.p) IN
                       IF acc # <<>> /\ acc[Len(acc)][1] = l
                       THEN [acc EXCEPT ![Len(acc)][2] = BAdd(@, x.a)]
                       ELSE Append(acc, <<l, x.a, Zero>>)
        all == SelectSeq(FoldLeft(add, <<>>, left), LAMBDA l : OK(l[1]))
    IN  SubSeq(all, 1, Min({n, Len(all)}))

\* The distance of the ticks where the n-th sell level is.
SmallestUnit(lb, ls, hi, k, n) ==
    IF ls = <<>> THEN TGapAt(lb[1].p, k)
    ELSE LET c  == Cardinality({j \in DOMAIN ls : BLe(ls[j].p, hi)})
             at == IF c = 0 THEN ls[1].p
                   ELSE IF c >= n THEN ls[n].p
                   ELSE IF c = Len(ls) THEN ls[c].p
                   ELSE TNext(TDown(hi, k), k)
         IN  TGapAt(at, k)

BookShown(st, pr, pows, n, b) ==
    LET k  == st.par.tp
        lo == LimLo(st, pr.last[1])  hi == LimHi(st, pr.last[1])
        S  == BookOf(st, pr)
        u  == Unmatched(Sums(S, S.b), Sums(S, S.s))
        lb == Left(u.b)  ls == Left(u.s)
        base == IF lb = <<>> THEN ls[1].p ELSE IF ls = <<>> THEN lb[1].p
                ELSE TRound(DQuoInt(DAdd(lb[1].p, ls[1].p), 2), k)
        unit == SmallestUnit(lb, ls, hi, k, n)
        shown(w) == LET un == BMul(unit, BPow10(w)) IN
                    [unit |-> un,
                     sells |-> Reverse(Levels(ls, LAMBDA p : FitUp(p, un), LAMBDA p : BLe(p, hi), n)),
                     buys |-> Levels(lb, LAMBDA p : FitDown(p, un), LAMBDA p : BGe(p, lo) /\ p[1] >= 0, n)]
    IN  IF S.bad THEN b
        ELSE IF lb = <<>> /\ ls = <<>> THEN [pair |-> pr.id, base |-> Zero, obs |-> <<>>]
        ELSE [pair |-> pr.id, base |-> base, obs |-> [j \in DOMAIN pows |-> shown(pows[j])]]

NoCross(o) == o.buys = <<>> \/ o.sells = <<>> \/ BLt(o.buys[1][1], o.sells[Len(o.sells)][1])

Books(q, st) ==
    LET ps   == q.pairs
        pows == IF q.pows = <<>> THEN <<0, 1, 2>> ELSE SetToSortSeq(Range(q.pows), <)
        bad  == \/ ps = <<>> \/ q.n = 0
                \/ Cardinality(Range(ps)) # Len(ps) \/ (q.pows # <<>> /\ Cardinality(Range(q.pows)) # Len(q.pows))
                \/ \E k \in DOMAIN ps : ~HasPair(st, ps[k]) \/ PairOf(st, ps[k]).last = <<>>
    IN  IF bad THEN Refused(q)
        ELSE IF q.r = "panic"
        THEN Cl("the book can be shown", \E k \in DOMAIN ps : BookOf(st, PairOf(st, ps[k])).bad)
        ELSE IF q.r # "ok" \/ Len(q.x) # Len(ps) THEN {"every pair asked for is shown"}
        ELSE UNION {LET b == q.x[k] w == BookShown(st, PairOf(st, ps[k]), pows, q.n, b) IN
                    Cl("the books of the pairs asked for", b.pair = ps[k])
                    \cup Cl("a book that is shown does not cross", \A j \in DOMAIN b.obs : NoCross(b.obs[j]))
                    \cup Cl("the middle of the book", b.base = w.base)
                    \cup Cl("the steps of the book", [j \in DOMAIN b.obs |-> b.obs[j].unit] = [j \in DOMAIN w.obs |-> w.obs[j].unit])
                    \cup Cl("the levels of the book", b = w \/ [j \in DOMAIN b.obs |-> b.obs[j].unit] # [j \in DOMAIN w.obs |-> w.obs[j].unit]
                                                      \/ b.base # w.base)
                    : k \in DOMAIN ps}

\* ------------------------------------------------------------ every query
Query(q, st) ==
    LET pairs == st.pairs  orders == st.orders IN
    CASE q.q = "params" -> Cl("the parameters are shown", q.r = "ok" /\ q.par = st.par)
      [] q.q = "pairs" ->
           IF Len(q.ds) > 2 \/ \E k \in DOMAIN q.ds : ~ValidDenom(q.ds[k]) THEN Refused(q)
           ELSE Listing(q, Sel(pairs, LAMBDA p :
                    CASE Len(q.ds) = 0 -> TRUE
                      [] Len(q.ds) = 1 -> q.ds[1] \in {p.base, p.quote}
                      [] OTHER -> {q.ds[1], q.ds[2]} = {p.base, p.quote}))
      [] q.q = "pair" -> One1(q, {k \in DOMAIN pairs : pairs[k].id = q.id}, pairs)
      [] q.q = "pools" ->
           IF q.dis \notin {"", "true", "false"} THEN Refused(q)
           ELSE Listing(q, PoolsShown(st, Sel([k \in DOMAIN st.pools |-> k], LAMBDA k :
                    /\ q.pair = 0 \/ st.pools[k].pair = q.pair
                    /\ q.dis = "" \/ st.pools[k].dis = (q.dis = "true"))))
      [] q.q = "pool" -> PoolFound(q, st, {k \in DOMAIN st.pools : st.pools[k].id = q.id})
      [] q.q = "poolbyres" -> PoolFound(q, st, {k \in DOMAIN st.pools : st.pools[k].res = q.a})
      [] q.q = "poolbyden" -> PoolFound(q, st, {k \in DOMAIN st.pools : st.pools[k].pcd = q.d})
      [] q.q = "deps" -> IF q.pool = 0 THEN Refused(q) ELSE Listing(q, Sel(st.deps, LAMBDA d : d.pool = q.pool))
      [] q.q = "wds"  -> IF q.pool = 0 THEN Refused(q) ELSE Listing(q, Sel(st.wds, LAMBDA d : d.pool = q.pool))
      [] q.q = "dep"  -> One1(q, {k \in DOMAIN st.deps : st.deps[k].pool = q.pool /\ st.deps[k].id = q.id}, st.deps)
      [] q.q = "wd"   -> One1(q, {k \in DOMAIN st.wds : st.wds[k].pool = q.pool /\ st.wds[k].id = q.id}, st.wds)
      [] q.q = "orders" -> IF q.pair = 0 THEN Refused(q) ELSE Listing(q, Sel(orders, LAMBDA o : o.pair = q.pair))
      [] q.q = "order" -> One1(q, {k \in DOMAIN orders : orders[k].pair = q.pair /\ orders[k].id = q.id}, orders)
      [] q.q = "byorderer" ->
           IF ~ValidAddr(q.who) THEN Refused(q)
           ELSE Listing(q, Sel(orders, LAMBDA o : o.who = q.who /\ (q.pair = 0 \/ o.pair = q.pair)))
      [] q.q = "nummm" -> IF q.pair = 0 \/ ~ValidAddr(q.who) THEN Refused(q)
                          ELSE Cl("the count of market making orders", q.r = "ok" /\ q.n = MMCount(st, q.who, q.pair))
      [] OTHER -> {}

\* p: the property; st: the state in which the queries were asked.
QueryLaws(p, st, qs) ==
    CASE p = "C16" -> UNION {Query(qs[k], st) : k \in DOMAIN qs}
      [] p = "C24" -> UNION {Books(qs[k], st) : k \in {j \in DOMAIN qs : qs[j].q = "books"}}
      [] OTHER -> {}
=============================================================================
