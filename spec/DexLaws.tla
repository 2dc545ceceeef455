------------------------------ MODULE DexLaws -------------------------------
(***************************************************************************)
(* The properties, as laws over one step of the exchange: pre, the event   *)
(* e, its result r ("ok", "rej": rejected, "halt") and post.  Each law is  *)
(* the set of the names of its clauses that the step breaks, so that it    *)
(* can be checked on the steps of the specification (MCDex) and on         *)
(* recorded steps of the real exchange (DexTrace).                         *)
(***************************************************************************)
EXTENDS Dex

Cl(name, cond) == IF cond THEN {} ELSE {name}

IsOrderMsg(e) == e.m \in {"limit", "market", "mm"}
IsLive(o) == o.st \notin Finished
BSum(f(_), S) == FoldLeft(LAMBDA a, k : BAdd(a, f(k)), Zero, SetToSeq(S))
AllDenoms(st) == DOMAIN st.sup \cup UNION {DOMAIN st.bal[a] : a \in DOMAIN st.bal}
Accounts(st)  == DOMAIN st.bal
Executed(pre, e, r) == e.m = "end" /\ r = "ok" /\ pre.h % pre.par.bs = 0

SameOrdIds(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k].pair = b[k].pair /\ a[k].id = b[k].id
SameReqIds(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k].pool = b[k].pool /\ a[k].id = b[k].id
Aligned(pre, post) == SameOrdIds(pre.orders, post.orders) /\ SameReqIds(pre.deps, post.deps)
                      /\ SameReqIds(pre.wds, post.wds) /\ Len(pre.pools) = Len(post.pools) /\ Len(pre.pairs) = Len(post.pairs)

\* What order k paid, received and traded in this step.
Spent(pre, post, k) == BSub(pre.orders[k].rem, post.orders[k].rem)
Got(pre, post, k)   == BSub(post.orders[k].recv, pre.orders[k].recv)
Traded(pre, post, k) == BSub(pre.orders[k].open, post.orders[k].open)

\* Requests executed in this step.
DepsDone(pre, post) == {k \in DOMAIN pre.deps : pre.deps[k].st = "new" /\ post.deps[k].st = "ok"}
WdsDone(pre, post)  == {k \in DOMAIN pre.wds : pre.wds[k].st = "new" /\ post.wds[k].st = "ok"}

\* What pool i gained by trading in this step, in coins of d.
PoolTraded(pre, post, i, d) ==
    LET q == post.pools[i] IN
    BAdd(BSub(BSub(Bal(post, q.res, d), Bal(pre, q.res, d)),
              BSum(LAMBDA k : AmtOf(post.deps[k].acc, d), {k \in DepsDone(pre, post) : post.deps[k].pool = q.id})),
         BSum(LAMBDA k : AmtOf(post.wds[k].wdn, d), {k \in WdsDone(pre, post) : post.wds[k].pool = q.id}))

PairOrds(st, p)  == {k \in DOMAIN st.orders : st.orders[k].pair = p}
PairPools(st, p) == {k \in DOMAIN st.pools : st.pools[k].pair = p}

SomeTrade(pre, post, p) ==
    \/ \E k \in PairOrds(pre, p) : Traded(pre, post, k) # Zero
    \/ \E i \in PairPools(pre, p) : PoolTraded(pre, post, i, PairOf(pre, p).base) # Zero

\* Quote coins paid by the buyers of pair p minus those received by the sellers.
DustOf(pre, post, pr) ==
    BSub(BSub(BSum(LAMBDA k : Spent(pre, post, k), {k \in PairOrds(pre, pr.id) : pre.orders[k].dir = "b"}),
              BSum(LAMBDA k : Got(pre, post, k), {k \in PairOrds(pre, pr.id) : pre.orders[k].dir = "s"})),
         BSum(LAMBDA i : PoolTraded(pre, post, i, pr.quote), PairPools(pre, pr.id)))
\* Base coins given by the sellers minus those received by the buyers.
BaseGap(pre, post, pr) ==
    BSub(BSub(BSum(LAMBDA k : Spent(pre, post, k), {k \in PairOrds(pre, pr.id) : pre.orders[k].dir = "s"}),
              BSum(LAMBDA k : Got(pre, post, k), {k \in PairOrds(pre, pr.id) : pre.orders[k].dir = "b"})),
         BSum(LAMBDA i : PoolTraded(pre, post, i, pr.base), PairPools(pre, pr.id)))

\* ======================================================================
\* Escrow: what the exchange holds for orders and requests.
\* ======================================================================
Owed(st, p, d) == BSum(LAMBDA k : st.orders[k].rem,
                       {k \in PairOrds(st, p) : IsLive(st.orders[k]) /\ st.orders[k].od = d})
OwedReq(st, d) == BAdd(BSum(LAMBDA k : AmtOf(st.deps[k].coins, d), {k \in DOMAIN st.deps : st.deps[k].st = "new"}),
                       BSum(LAMBDA k : st.wds[k].pc, {k \in DOMAIN st.wds : st.wds[k].st = "new" /\ st.wds[k].pcd = d}))
Gift(e, r, a, d) == IF e.m = "send" /\ r = "ok"
                    THEN BSub(IF e.to = a THEN AmtOf(e.coins, d) ELSE Zero, IF e.who = a THEN AmtOf(e.coins, d) ELSE Zero)
                    ELSE Zero

\* What account a gets in this step from its orders and requests, in coins of d.
OrderFlow(pre, post, a, d) ==
    BSum(LAMBDA k :
           LET o == pre.orders[k] n == post.orders[k] IN
           BAdd(IF o.rd = d THEN Got(pre, post, k) ELSE Zero,
                IF o.od = d /\ IsLive(o) /\ ~IsLive(n) THEN n.rem ELSE Zero),
         {k \in DOMAIN pre.orders : pre.orders[k].who = a})
RequestFlow(pre, post, a, d) ==
    BAdd(BSum(LAMBDA k :
                LET n == post.deps[k] IN
                IF n.st = "ok" THEN BAdd(BSub(AmtOf(n.coins, d), AmtOf(n.acc, d)), IF n.md = d THEN n.mint ELSE Zero)
                ELSE IF n.st = "fail" THEN AmtOf(n.coins, d) ELSE Zero,
              {k \in DOMAIN pre.deps : pre.deps[k].who = a /\ pre.deps[k].st = "new"}),
         BSum(LAMBDA k :
                LET n == post.wds[k] IN
                IF n.st = "ok" THEN AmtOf(n.wdn, d)
                ELSE IF n.st = "fail" /\ n.pcd = d THEN n.pc ELSE Zero,
              {k \in DOMAIN pre.wds : pre.wds[k].who = a /\ pre.wds[k].st = "new"}))
DustFlow(pre, post, a, d) ==
    IF pre.par.dust # a THEN Zero
    ELSE BSum(LAMBDA i : DustOf(pre, post, pre.pairs[i]), {i \in DOMAIN pre.pairs : pre.pairs[i].quote = d})

Special(st) == {"gesc", "mod"} \cup {st.pairs[i].esc : i \in DOMAIN st.pairs} \cup {st.pools[i].res : i \in DOMAIN st.pools}

Solvency(pre, e, r, post) ==
    IF e.m = "genesis" THEN {} ELSE
    Cl("pair escrow", \A i \in DOMAIN post.pairs : \A d \in AllDenoms(post) :
         LET p == post.pairs[i] IN
         BSub(Bal(post, p.esc, d), Owed(post, p.id, d))
           = BAdd(BSub(Bal(pre, p.esc, d), Owed(pre, p.id, d)), Gift(e, r, p.esc, d)))
    \cup Cl("pair escrow covers its orders", \A i \in DOMAIN post.pairs : \A d \in AllDenoms(post) :
         BGe(Bal(post, post.pairs[i].esc, d), Owed(post, post.pairs[i].id, d)))
    \cup Cl("request escrow", \A d \in AllDenoms(post) \cup AllDenoms(pre) :
         BSub(Bal(post, "gesc", d), OwedReq(post, d)) = BAdd(BSub(Bal(pre, "gesc", d), OwedReq(pre, d)), Gift(e, r, "gesc", d)))
    \cup Cl("module account", \A d \in AllDenoms(post) \cup AllDenoms(pre) :
         Bal(post, "mod", d) = BAdd(Bal(pre, "mod", d), Gift(e, r, "mod", d)))
    \cup Cl("supply of traded coins", \A d \in AllDenoms(post) \cup AllDenoms(pre) :
         (\A i \in DOMAIN post.pools : post.pools[i].pcd # d) => Sup(post, d) = Sup(pre, d))
    \cup (IF e.m = "end" /\ r = "ok" /\ Aligned(pre, post)
          THEN Cl("owners are paid", \A a \in (Accounts(pre) \cup Accounts(post)) \ Special(post) : \A d \in AllDenoms(post) \cup AllDenoms(pre) :
                 BSub(Bal(post, a, d), Bal(pre, a, d))
                   = BAdd(BAdd(OrderFlow(pre, post, a, d), RequestFlow(pre, post, a, d)), DustFlow(pre, post, a, d)))
          ELSE {})
    \cup (IF e.m \in {"begin", "cancel", "cancelall", "params"} \/ r = "rej"
          THEN Cl("no other payment", \A a \in (Accounts(pre) \cup Accounts(post)) : \A d \in AllDenoms(post) :
                 \/ Bal(post, a, d) = Bal(pre, a, d)
                 \/ r = "ok" /\ e.m \in {"cancel", "cancelall"} /\ (a = e.who \/ a \in Special(post)))
          ELSE {})

\* ======================================================================
\* Trading: nobody pays more or receives less than the order says.
\* ======================================================================
LimitsKept(pre, e, r, post) ==
    IF ~(e.m = "end" /\ r = "ok") THEN {}
    ELSE IF ~Aligned(pre, post) THEN {"orders lost"}
    ELSE UNION {LET o == pre.orders[k] n == post.orders[k]
                    f == Traded(pre, post, k) s == Spent(pre, post, k) g == Got(pre, post, k)
                    slack == D(BInt(Len(pre.orders) + 400))
                IN  IF f = Zero /\ s = Zero /\ g = Zero THEN {} ELSE
                    Cl("amounts go one way", f[1] >= 0 /\ s[1] >= 0 /\ g[1] >= 0)
                    \cup Cl("no more than offered", n.rem[1] >= 0 /\ n.open[1] >= 0 /\ BLe(BSub(o.offer, n.rem), o.offer))
                    \cup Cl("no trade, no payment", f # Zero \/ (s = Zero /\ g = Zero))
                    \cup Cl("finished orders do not trade", IsLive(o))
                    \cup (IF o.dir = "b"
                          THEN Cl("a buyer receives what it bought", g = f)
                               \cup Cl("a buyer pays at most its price", BLe(D(s), BAdd(DMulInt(o.price, f), slack)))
                          ELSE Cl("a seller gives what it sold", s = f)
                               \cup Cl("a seller receives at least its price", BGe(BAdd(D(g), slack), DMulInt(o.price, f))))
                : k \in DOMAIN pre.orders}

Balanced(pre, e, r, post) ==
    IF ~(e.m = "end" /\ r = "ok") THEN {}
    ELSE IF ~Aligned(pre, post) THEN {"orders lost"}
    ELSE UNION {LET p == pre.pairs[i]
                    dust == DustOf(pre, post, p)
                IN  Cl("base coins sold = base coins bought", BaseGap(pre, post, p) = Zero)
                    \cup Cl("buyers pay at least what sellers receive", dust[1] >= 0)
                    \cup Cl("no trade, no dust", dust = Zero \/ SomeTrade(pre, post, p.id))
                : i \in DOMAIN pre.pairs}
         \cup UNION {Cl("pools trade only in executed batches", Executed(pre, e, r) \/
                          (PoolTraded(pre, post, i, PairOf(pre, pre.pools[i].pair).base) = Zero
                           /\ PoolTraded(pre, post, i, PairOf(pre, pre.pools[i].pair).quote) = Zero))
                     : i \in DOMAIN pre.pools}

\* ======================================================================
\* Life of an order.
\* ======================================================================
Immutable(o, n) == /\ o.pair = n.pair /\ o.id = n.id /\ o.typ = n.typ /\ o.h = n.h /\ o.who = n.who /\ o.dir = n.dir
                   /\ o.od = n.od /\ o.rd = n.rd /\ o.offer = n.offer /\ o.price = n.price /\ o.amt = n.amt
                   /\ o.batch = n.batch /\ o.exp = n.exp

\* The status of a live order after the batch, given what it traded.
StatusAfter(pre, o, n) ==
    IF IsZ(n.open) THEN "done"
    ELSE IF Expired(o, pre.t) \/ TooSmall(n.open, n.price) THEN "exp"
    ELSE IF o.st = "part" \/ n.open # o.open THEN "part" ELSE "open"

Lifecycle(pre, e, r, post) ==
    LET find(st, o) == {k \in DOMAIN st.orders : st.orders[k].pair = o.pair /\ st.orders[k].id = o.id}
        old(k) == post.orders[CHOOSE j \in find(post, pre.orders[k]) : TRUE]
        kept   == {k \in DOMAIN pre.orders : find(post, pre.orders[k]) # {}}
        new    == {k \in DOMAIN post.orders : find(pre, post.orders[k]) = {}}
    IN
    Cl("only finished orders are removed, at the beginning of a block",
         \A k \in DOMAIN pre.orders \ kept : e.m = "begin" /\ ~IsLive(pre.orders[k]))
    \cup Cl("finished orders are removed at the beginning of a block",
         e.m = "begin" => \A k \in DOMAIN post.orders : IsLive(post.orders[k]))
    \cup Cl("terms of an order never change", \A k \in kept : Immutable(pre.orders[k], old(k)))
    \cup Cl("a finished order is final", \A k \in kept : ~IsLive(pre.orders[k]) => pre.orders[k] = old(k))
    \cup Cl("only the batch and cancellation change orders",
         e.m \notin {"end", "cancel", "cancelall"} => \A k \in kept : pre.orders[k] = old(k))
    \cup Cl("a new order comes from its message", \A k \in new :
         IsOrderMsg(e) /\ r = "ok" /\ post.orders[k].st = "new" /\ post.orders[k].open = post.orders[k].amt
           /\ post.orders[k].rem = post.orders[k].offer /\ IsZ(post.orders[k].recv) /\ post.orders[k].typ = e.m)
    \cup Cl("an accepted message makes one order", IsOrderMsg(e) => Cardinality(new) = IF r = "ok" THEN 1 ELSE 0)
    \cup Cl("cancellation only ends orders", e.m \in {"cancel", "cancelall"} =>
         \A k \in kept : old(k) = pre.orders[k] \/ old(k) = [pre.orders[k] EXCEPT !.st = "canc"])
    \cup (IF e.m = "end" /\ r = "ok"
          THEN Cl("status follows from the batch", \A k \in kept :
                 LET o == pre.orders[k] n == old(k) IN
                 ~IsLive(o) \/ n.st = IF Executed(pre, e, r) THEN StatusAfter(pre, o, n) ELSE o.st)
          ELSE {})
    \cup Cl("the fills of an order add up", \A k \in DOMAIN post.orders :
         LET o == post.orders[k] IN
         /\ o.rem[1] >= 0 /\ BLe(o.rem, o.offer) /\ o.recv[1] >= 0
         /\ IF o.dir = "b" THEN o.recv = BSub(o.amt, o.open) ELSE BSub(o.offer, o.rem) = BSub(o.amt, o.open))
    \cup Cl("fills are never taken back", \A k \in kept :
         BLe(old(k).open, pre.orders[k].open) /\ BLe(old(k).rem, pre.orders[k].rem) /\ BGe(old(k).recv, pre.orders[k].recv))
    \cup Cl("done means nothing is open", \A k \in DOMAIN post.orders :
         LET o == post.orders[k] IN
         /\ (o.st = "done") = IsZ(o.open)
         /\ o.st \in {"new", "open"} => o.open = o.amt
         /\ o.st = "part" => BLt(o.open, o.amt)
         /\ o.st \in {"new", "open", "part", "done", "canc", "exp"})

Expiration(pre, e, r, post) ==
    (IF IsOrderMsg(e) /\ r = "ok" /\ Len(post.orders) = Len(pre.orders) + 1
     THEN Cl("an order expires after its lifespan",
             LET n == CHOOSE k \in DOMAIN post.orders : post.orders[k].pair = e.pair
                        /\ \A j \in DOMAIN post.orders : post.orders[j].pair = e.pair => post.orders[j].id <= post.orders[k].id
             IN  post.orders[n].exp = pre.t + e.life /\ e.life <= pre.par.life)
     ELSE {})
    \cup (IF e.m = "end" /\ r = "ok" /\ SameOrdIds(pre.orders, post.orders)
          THEN Cl("no order expires early", \A k \in DOMAIN pre.orders :
                    (IsLive(pre.orders[k]) /\ post.orders[k].st = "exp") =>
                       Executed(pre, e, r) /\ (Expired(pre.orders[k], pre.t) \/ TooSmall(post.orders[k].open, post.orders[k].price)))
               \cup Cl("no expired or negligible order stays", Executed(pre, e, r) => \A k \in DOMAIN post.orders :
                    IsLive(post.orders[k]) => ~Expired(post.orders[k], pre.t) /\ ~TooSmall(post.orders[k].open, post.orders[k].price))
               \cup Cl("an expired order does not trade again", \A k \in DOMAIN pre.orders :
                    pre.orders[k].st \in {"open", "part"} /\ Expired(pre.orders[k], pre.t) => Traded(pre, post, k) = Zero)
          ELSE {})
    \cup Cl("nothing else expires orders", e.m # "end" => \A k \in DOMAIN post.orders : post.orders[k].st = "exp" =>
             \E j \in DOMAIN pre.orders : pre.orders[j] = post.orders[k])

Cancellation(pre, e, r, post) ==
    IF e.m \notin {"cancel", "cancelall"}
    THEN Cl("only a cancellation cancels", \A k \in DOMAIN post.orders : post.orders[k].st = "canc" =>
              \E j \in DOMAIN pre.orders : pre.orders[j] = post.orders[k])
    ELSE IF ~SameOrdIds(pre.orders, post.orders) THEN {"orders lost"}
    ELSE LET hit == {k \in DOMAIN pre.orders : post.orders[k].st = "canc" /\ pre.orders[k].st # "canc"}
             ended == {k \in hit : IsLive(pre.orders[k])}
         IN  Cl("only one's own orders", \A k \in hit : pre.orders[k].who = e.who)
             \cup Cl("not in the batch of its placement", \A k \in hit :
                    pre.orders[k].batch < PairOf(pre, pre.orders[k].pair).batch)
             \cup Cl("a rejected cancellation cancels nothing", r = "rej" => hit = {})
             \cup Cl("the order meant", e.m = "cancel" => \A k \in hit : pre.orders[k].pair = e.pair /\ pre.orders[k].id = e.id)
             \cup Cl("the pairs meant", e.m = "cancelall" /\ e.pairs # <<>> => \A k \in hit : pre.orders[k].pair \in Range(e.pairs))
             \cup Cl("all that can be cancelled is", r = "ok" => \A k \in DOMAIN pre.orders :
                    LET o == pre.orders[k] IN
                    (/\ IsLive(o) /\ o.who = e.who /\ o.batch < PairOf(pre, o.pair).batch
                     /\ IF e.m = "cancel" THEN o.pair = e.pair /\ o.id = e.id ELSE e.pairs = <<>> \/ o.pair \in Range(e.pairs))
                    => k \in hit)
             \cup Cl("exactly the rest of the offer comes back", \A a \in Accounts(post) \cup Accounts(pre) : \A d \in AllDenoms(pre) :
                    BSub(Bal(post, a, d), Bal(pre, a, d)) =
                      BSub(IF a = e.who THEN BSum(LAMBDA k : pre.orders[k].rem, {k \in ended : pre.orders[k].od = d}) ELSE Zero,
                           BSum(LAMBDA k : pre.orders[k].rem, {k \in ended : pre.orders[k].od = d /\ EscOf(pre.orders[k].pair) = a})))

\* ======================================================================
\* Prices.
\* ======================================================================
\* Everything of pair p is on the ticks of the precision in force (it may
\* not be after a change of the precision).
GridKept(st, p) ==
    /\ \A k \in PairOrds(st, p.id) : IsTick(st.orders[k].price, st.par.tp)
    /\ p.last = <<>> \/ IsTick(p.last[1], st.par.tp)

Prices(pre, e, r, post) ==
    UNION {LET p == pre.pairs[i]
               js == {j \in DOMAIN post.pairs : post.pairs[j].id = p.id}
               q == post.pairs[CHOOSE j \in js : TRUE]
               traded == SomeTrade(pre, post, p.id)
           IN  IF js = {} THEN {"pair lost"}
               ELSE IF ~Executed(pre, e, r) THEN Cl("prices and batches move only in executed batches", q.last = p.last /\ q.batch = p.batch)
               ELSE IF ~Aligned(pre, post) THEN {"orders lost"}
               ELSE Cl("one batch per execution", q.batch = p.batch + 1)
                    \cup Cl("no trade, no new price", traded \/ q.last = p.last)
                    \cup Cl("a trade sets the price", ~traded \/ q.last # <<>>)
                    \cup Cl("a price on a tick", q.last = p.last \/ ~GridKept(pre, p) \/ IsTick(q.last[1], pre.par.tp))
                    \cup Cl("a price within the price limits", q.last = p.last \/ p.last = <<>> \/
                           \* the limits may be narrower by now than when the orders were placed
                           (/\ BLe(q.last[1], DMul(p.last[1], DAdd(DecOne, pre.par.ratio)))
                               \/ \E k \in PairOrds(pre, p.id) : LET o == pre.orders[k] IN IsLive(o) /\ o.dir = "b" /\ BLe(q.last[1], o.price)
                            /\ BGe(q.last[1], DMul(p.last[1], DSub(DecOne, pre.par.ratio)))
                               \/ \E k \in PairOrds(pre, p.id) : LET o == pre.orders[k] IN IsLive(o) /\ o.dir = "s" /\ BGe(q.last[1], o.price)))
           : i \in DOMAIN pre.pairs}

\* ======================================================================
\* Pools.
\* ======================================================================
\* The value of a constant product pool never falls by trading, except for
\* the roundings: one coin for each order that it places.
PoolSlack == BInt(3000)
PoolValue(pre, e, r, post) ==
    IF ~(e.m = "end" /\ r = "ok") \/ ~Aligned(pre, post) THEN {}
    ELSE UNION {LET q == pre.pools[i]
                    pr == PairOf(pre, q.pair)
                    x == RxOf(pre, q) y == RyOf(pre, q)
                    tx == PoolTraded(pre, post, i, pr.quote) ty == PoolTraded(pre, post, i, pr.base)
                IN  IF tx = Zero /\ ty = Zero THEN {}
                    ELSE Cl("a disabled pool does not trade", ~q.dis)
                         \cup Cl("a pool gives one coin for the other", tx[1] * ty[1] = -1)
                         \cup Cl("the pool can pay", BAdd(x, tx)[1] >= 0 /\ BAdd(y, ty)[1] >= 0)
                         \cup (IF q.typ # "basic" THEN {}
                               ELSE Cl("the product of the reserves does not fall",
                                       BGe(BMul(BAdd(BAdd(x, tx), PoolSlack), BAdd(BAdd(y, ty), PoolSlack)), BMul(x, y))))
                : i \in DOMAIN pre.pools}

\* The state right before requests are executed, from what the step shows.
BeforeRequests(pre, post) ==
    LET tr(i, d) == PoolTraded(pre, post, i, d)
        put(b, i) == LET q == pre.pools[i] pr == PairOf(pre, q.pair) IN
                     (q.res :> ((pr.base :> BAdd(Bal(pre, q.res, pr.base), tr(i, pr.base)))
                                @@ (pr.quote :> BAdd(Bal(pre, q.res, pr.quote), tr(i, pr.quote)))
                                @@ (IF q.res \in DOMAIN b THEN b[q.res] ELSE <<>>))) @@ b
    IN  [pre EXCEPT !.bal = FoldLeft(put, pre.bal, [i \in DOMAIN pre.pools |-> i]),
                    !.pools = [i \in DOMAIN pre.pools |-> [pre.pools[i] EXCEPT !.dis = @ \/ DepletedNow(pre, pre.pools[i])]]]
AfterRequests(pre, post) ==
    LET s == BeforeRequests(pre, post)
        d == FoldLeft(ExecDep, s, [k \in DOMAIN s.deps |-> k])
    IN  FoldLeft(ExecWd, d, [k \in DOMAIN d.wds |-> k])

NormDep(r) == [r EXCEPT !.coins = Range(@), !.acc = Range(@)]
NormWd(r)  == [r EXCEPT !.wdn = Range(@)]

Deposits(pre, e, r, post) ==
    IF e.m = "end" /\ r = "ok" THEN
      IF ~Aligned(pre, post) THEN {"requests lost"}
      ELSE LET a == IF Executed(pre, e, r) /\ (pre.deps # <<>> \/ pre.wds # <<>>) THEN AfterRequests(pre, post) ELSE pre
           IN  IF a.bad THEN {}
               ELSE Cl("deposits are executed by the rule", \A k \in DOMAIN pre.deps : NormDep(a.deps[k]) = NormDep(post.deps[k]))
                    \cup Cl("no more accepted than deposited", \A k \in DOMAIN post.deps : \A j \in DOMAIN post.deps[k].acc :
                           BLe(post.deps[k].acc[j][2], AmtOf(post.deps[k].coins, post.deps[k].acc[j][1])))
                    \cup Cl("every pending deposit is settled", Executed(pre, e, r) => \A k \in DOMAIN post.deps : post.deps[k].st # "new")
                    \cup Cl("pool coins are minted for deposits only", \A i \in DOMAIN post.pools : LET q == post.pools[i] IN
                           BAdd(Sup(post, q.pcd), BSum(LAMBDA k : post.wds[k].pc, {k \in WdsDone(pre, post) : post.wds[k].pool = q.id}))
                             = BAdd(Sup(pre, q.pcd), BSum(LAMBDA k : post.deps[k].mint, {k \in DepsDone(pre, post) : post.deps[k].pool = q.id})))
    ELSE Cl("finished deposits are removed, pending ones are kept", e.m = "begin" =>
              post.deps = SelectSeq(pre.deps, LAMBDA q : q.st = "new"))
         \cup Cl("deposits change only in the batch", e.m \notin {"begin", "deposit"} => post.deps = pre.deps)

Withdrawals(pre, e, r, post) ==
    IF e.m = "end" /\ r = "ok" THEN
      IF ~Aligned(pre, post) THEN {"requests lost"}
      ELSE LET a == IF Executed(pre, e, r) /\ (pre.deps # <<>> \/ pre.wds # <<>>) THEN AfterRequests(pre, post) ELSE pre
           IN  IF a.bad THEN {}
               ELSE Cl("withdrawals are executed by the rule", \A k \in DOMAIN pre.wds : NormWd(a.wds[k]) = NormWd(post.wds[k]))
                    \cup Cl("every pending withdrawal is settled", Executed(pre, e, r) => \A k \in DOMAIN post.wds : post.wds[k].st # "new")
                    \cup Cl("withdrawn pool coins are burnt", \A i \in DOMAIN post.pools : LET q == post.pools[i] IN
                           BAdd(Sup(post, q.pcd), BSum(LAMBDA k : post.wds[k].pc, {k \in WdsDone(pre, post) : post.wds[k].pool = q.id}))
                             = BAdd(Sup(pre, q.pcd), BSum(LAMBDA k : post.deps[k].mint, {k \in DepsDone(pre, post) : post.deps[k].pool = q.id})))
    ELSE Cl("finished withdrawals are removed, pending ones are kept", e.m = "begin" =>
              post.wds = SelectSeq(pre.wds, LAMBDA q : q.st = "new"))
         \cup Cl("withdrawals change only in the batch", e.m \notin {"begin", "withdraw"} => post.wds = pre.wds)

PoolLife(pre, e, r, post) ==
    Cl("pools are made by their messages only", Len(post.pools) = Len(pre.pools) + (IF e.m \in {"pool", "rpool"} /\ r = "ok" THEN 1 ELSE 0))
    \cup UNION {IF i \notin DOMAIN post.pools THEN {"pool lost"} ELSE
                LET q == pre.pools[i] n == post.pools[i] IN
                Cl("terms of a pool never change", [q EXCEPT !.dis = n.dis, !.ldep = n.ldep, !.lwd = n.lwd] = n)
                \cup Cl("a disabled pool stays disabled", q.dis => n.dis)
                \cup Cl("a pool is disabled in the batch only", q.dis # n.dis => Executed(pre, e, r))
                \cup Cl("a disabled pool takes no requests", q.dis => n.ldep = q.ldep /\ n.lwd = q.lwd)
                : i \in DOMAIN pre.pools}
    \cup (IF Executed(pre, e, r) /\ Aligned(pre, post)
          THEN LET a == AfterRequests(pre, post) IN
               IF a.bad THEN {}
               ELSE Cl("a pool is disabled exactly when it is depleted", \A i \in DOMAIN post.pools : a.pools[i].dis = post.pools[i].dis)
          ELSE {})
    \cup Cl("one basic pool per pair", \A p \in {post.pairs[i].id : i \in DOMAIN post.pairs} :
              Cardinality({i \in PairPools(post, p) : post.pools[i].typ = "basic" /\ ~post.pools[i].dis}) <= 1)
    \cup Cl("number of active pools", (e.m \in {"pool", "rpool"} /\ r = "ok" /\ HasPair(pre, e.pair)) =>
              Cardinality({i \in PairPools(post, e.pair) : ~post.pools[i].dis}) <= post.par.maxp)

\* ======================================================================
\* Counters.
\* ======================================================================
MarketMaking(pre, e, r, post) ==
    LET live(u, p) == Cardinality({k \in DOMAIN post.orders : LET o == post.orders[k] IN
                          o.typ = "mm" /\ o.who = u /\ o.pair = p /\ IsLive(o)})
        keys == {<<post.mm[k].u, post.mm[k].pair>> : k \in DOMAIN post.mm}
                \cup {<<post.orders[k].who, post.orders[k].pair>> : k \in DOMAIN post.orders}
    IN  Cl("count = live market making orders", \A x \in keys : MMCount(post, x[1], x[2]) = live(x[1], x[2]))
        \cup Cl("no empty counts", \A k \in DOMAIN post.mm : post.mm[k].n > 0)
        \cup Cl("no order over the limit", e.m = "mm" /\ r = "ok" => live(e.who, e.pair) <= pre.par.mmmax)
        \cup Cl("the limit is the reason", e.m = "mm" /\ live(e.who, e.pair) >= pre.par.mmmax => r # "ok" \/ live(e.who, e.pair) <= pre.par.mmmax)

Identity(pre, e, r, post) ==
    LET uniq(S, f(_)) == \A a, b \in S : a # b => f(a) # f(b)
        newPair == e.m = "pair" /\ r = "ok"
        newPool == e.m \in {"pool", "rpool"} /\ r = "ok"
    IN  Cl("pair ids", post.lp = pre.lp + (IF newPair THEN 1 ELSE 0)
             /\ Len(post.pairs) = Len(pre.pairs) + (IF newPair THEN 1 ELSE 0)
             /\ \A i \in DOMAIN post.pairs : post.pairs[i].id = post.lp - Len(post.pairs) + i
                                                  /\ post.pairs[i].esc = EscOf(post.pairs[i].id))
        \cup Cl("pool ids", post.ll = pre.ll + (IF newPool THEN 1 ELSE 0)
             /\ \A i \in DOMAIN post.pools : LET n == post.ll - Len(post.pools) + i q == post.pools[i] IN
                    q.id = n /\ q.res = ResOf(n) /\ q.pcd = PcdOf(n))
        \cup Cl("one pair per base and quote", uniq(DOMAIN post.pairs, LAMBDA i : <<post.pairs[i].base, post.pairs[i].quote>>))
        \cup Cl("the terms of a pair never change", \A i \in DOMAIN pre.pairs : i \in DOMAIN post.pairs =>
             LET p == pre.pairs[i] n == post.pairs[i] IN p.base = n.base /\ p.quote = n.quote /\ p.esc = n.esc)
        \cup Cl("order ids", \A i \in DOMAIN post.pairs :
             LET before == IF i \in DOMAIN pre.pairs THEN pre.pairs[i].lo ELSE 0
                 id == post.pairs[i].id
                 placed == IsOrderMsg(e) /\ r = "ok" /\ e.pair = id
             IN  /\ post.pairs[i].lo = before + (IF placed THEN 1 ELSE 0)
                 /\ \A k \in PairOrds(post, id) : post.orders[k].id <= post.pairs[i].lo
                 /\ placed => \E k \in PairOrds(post, id) : post.orders[k].id = before + 1)
        \cup Cl("order ids are unique", uniq(DOMAIN post.orders, LAMBDA k : <<post.orders[k].pair, post.orders[k].id>>))
        \cup Cl("request ids", \A i \in DOMAIN post.pools :
             LET q == post.pools[i]
                 d0 == IF i \in DOMAIN pre.pools THEN pre.pools[i].ldep ELSE 0
                 w0 == IF i \in DOMAIN pre.pools THEN pre.pools[i].lwd ELSE 0
             IN  /\ q.ldep = d0 + (IF e.m = "deposit" /\ r = "ok" /\ e.pool = q.id THEN 1 ELSE 0)
                 /\ q.lwd = w0 + (IF e.m = "withdraw" /\ r = "ok" /\ e.pool = q.id THEN 1 ELSE 0)
                 /\ \A k \in DOMAIN post.deps : post.deps[k].pool = q.id => post.deps[k].id <= q.ldep
                 /\ \A k \in DOMAIN post.wds : post.wds[k].pool = q.id => post.wds[k].id <= q.lwd)
        \cup Cl("request ids are unique", uniq(DOMAIN post.deps, LAMBDA k : <<post.deps[k].pool, post.deps[k].id>>)
             /\ uniq(DOMAIN post.wds, LAMBDA k : <<post.wds[k].pool, post.wds[k].id>>))

\* ======================================================================
\* Parameters and fees.
\* ======================================================================
Governance(pre, e, r, post) ==
    Cl("only governance changes parameters", post.par # pre.par => e.m = "params" /\ r = "ok" /\ e.who = "gov")
    \cup Cl("parameters in force are valid", (e.m = "params" /\ r = "ok") => ParamsOK(post.par))
    \cup Cl("parameters are set as voted", (e.m = "params" /\ r = "ok") =>
              post.par = [e.par EXCEPT !.mind = IF @ = <<9>> THEN Zero ELSE @])
    \cup Cl("valid parameters from governance are accepted", (e.m = "params" /\ e.who = "gov" /\ ParamsOK(e.par)) => r = "ok")
    \cup Cl("a parameter change changes nothing else", e.m = "params" => [post EXCEPT !.par = pre.par] = pre)

Fees(pre, e, r, post) ==
    IF ~(e.m \in {"pair", "pool", "rpool"} /\ r = "ok") THEN {}
    ELSE LET fee == IF e.m = "pair" THEN pre.par.pcf ELSE pre.par.plf
             fc  == pre.par.fee
             stays == IF e.m = "pair" \/ Len(post.pools) = 0 THEN {} ELSE {post.pools[Len(post.pools)].res}
         IN  Cl("the fee collector receives exactly the fee", \A d \in AllDenoms(pre) :
                  fc = e.who \/ BSub(Bal(post, fc, d), Bal(pre, fc, d)) = AmtOf(fee, d))
             \cup Cl("the creator pays exactly the fee and what it puts into the pool", \A d \in AllDenoms(pre) :
                  LET put == IF stays = {} THEN Zero ELSE LET a == CHOOSE a \in stays : TRUE IN BSub(Bal(post, a, d), Bal(pre, a, d))
                      f == IF fc = e.who THEN Zero ELSE AmtOf(fee, d)
                  IN  BSub(Bal(pre, e.who, d), Bal(post, e.who, d)) = BAdd(f, put))
             \cup Cl("nobody else pays", \A a \in (Accounts(pre) \cup Accounts(post)) \ ({e.who, fc} \cup stays) :
                  \A d \in AllDenoms(post) : Bal(pre, a, d) = Bal(post, a, d))
             \cup Cl("a creation without its fee is refused", \A d \in Denoms(fee) : BGe(Bal(pre, e.who, d), AmtOf(fee, d)))

\* Prices of orders and pools are on ticks when they enter.
OnTicks(pre, e, r, post) ==
    IF r # "ok" THEN {}
    ELSE IF IsOrderMsg(e)
    THEN Cl("an order enters on a tick", \A k \in DOMAIN post.orders : (\E j \in DOMAIN pre.orders : pre.orders[j] = post.orders[k])
               \/ (/\ IsTick(post.orders[k].price, pre.par.tp)
                   /\ LET last == PairOf(pre, e.pair).last[1]
                          price == IF e.m # "market" THEN e.price
                                   ELSE IF e.dir = "b" THEN LimHi(pre, last) ELSE LimLo(pre, last)
                      IN  post.orders[k].price = IF e.dir = "b" THEN TDown(price, pre.par.tp) ELSE TUp(price, pre.par.tp)))
    ELSE IF e.m = "rpool"
    THEN Cl("a pool enters on ticks", IsTick(e.min, pre.par.tp) /\ IsTick(e.max, pre.par.tp) /\ IsTick(e.ini, pre.par.tp))
    ELSE IF e.m = "end"
    THEN Cl("a last price is on a tick", \A i \in DOMAIN pre.pairs : i \in DOMAIN post.pairs /\
              (post.pairs[i].last = pre.pairs[i].last \/ ~GridKept(pre, pre.pairs[i]) \/ IsTick(post.pairs[i].last[1], pre.par.tp)))
    ELSE {}
=============================================================================
