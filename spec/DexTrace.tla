------------------------------ MODULE DexTrace ------------------------------
(***************************************************************************)
(* Checks recorded steps of the real exchange: the laws of DexLaws, and    *)
(* that the exchange does what Dex says, property by property.             *)
(*                                                                         *)
(* The logs are files of JSON lines [e: event, r: result, x: observations, *)
(* s: state after (only when it changed), sp: line of the state after].    *)
(* Every 32nd line is an initial state, so that the work is spread over    *)
(* the workers; each step checks one line.                                 *)
(***************************************************************************)
EXTENDS DexQuery, DexGenesis, Json, IOUtils

Names  == JsonDeserialize(IOEnv.VERIF_FILES)      \* names of the logs
Props  == Range(JsonDeserialize(IOEnv.VERIF_PROPS))  \* properties to decide
Traces == TLCEval([k \in DOMAIN Names |-> ndJsonDeserialize(Names[k])])

VARIABLES sh, i

CHUNK == 32
Init == sh \in DOMAIN Traces /\ i \in {k \in DOMAIN Traces[sh] : k % CHUNK = 1}
Next == i % CHUNK # 0 /\ i < Len(Traces[sh]) /\ i' = i + 1 /\ sh' = sh

Line(s, k) == Traces[s][k]
Post(s, k) == Traces[s][Line(s, k).sp].s
Pre(s, k)  == Post(s, k - 1)

\* ------------------------------------------------------------ equality of states
SameBal(a, b) ==
    \A x \in DOMAIN a \cup DOMAIN b :
      LET f == Get(a, x, <<>>) g == Get(b, x, <<>>) IN
      \A d \in DOMAIN f \cup DOMAIN g : Get(f, d, Zero) = Get(g, d, Zero)
SameSup(f, g) == \A d \in DOMAIN f \cup DOMAIN g : Get(f, d, Zero) = Get(g, d, Zero)

Diff(a, b) ==
   {f \in {"h", "t", "par", "lp", "ll", "pairs", "pools", "orders"} : a[f] # b[f]}
   \cup (IF Range(a.mm) # Range(b.mm) THEN {"mm"} ELSE {})
   \cup (IF SameBal(a.bal, b.bal) THEN {} ELSE {"bal"})
   \cup (IF SameSup(a.sup, b.sup) THEN {} ELSE {"sup"})
   \cup (IF [k \in DOMAIN a.deps |-> NormDep(a.deps[k])] = [k \in DOMAIN b.deps |-> NormDep(b.deps[k])] THEN {} ELSE {"deps"})
   \cup (IF [k \in DOMAIN a.wds |-> NormWd(a.wds[k])] = [k \in DOMAIN b.wds |-> NormWd(b.wds[k])] THEN {} ELSE {"wds"})

SendEv(st, e) == LET s == Send(st, e.who, e.to, e.coins) IN IF s.bad THEN Rej(st) ELSE [ok |-> TRUE, st |-> s]

Exp(st, e) ==
    CASE e.m = "begin" -> [r |-> "ok", st |-> BeginBlock(st, e.h, e.t)]
      [] e.m = "end"   -> LET s == EndBlock(st) IN IF s.bad THEN [r |-> "halt", st |-> st] ELSE [r |-> "ok", st |-> s]
      [] e.m = "genesis" -> [r |-> "ok", st |-> st]
      [] e.m = "send"  -> LET x == SendEv(st, e) IN [r |-> IF x.ok THEN "ok" ELSE "rej", st |-> x.st]
      [] OTHER -> LET x == Msg(st, e) IN [r |-> IF x.ok THEN "ok" ELSE "rej", st |-> x.st]

\* A transaction: its messages in a row, all of them or none. It has no effect
\* unless its sender signed it, or if the gas that it may use does not suffice.
MsgIn(st, e) == IF e.m = "send" THEN SendEv(st, e) ELSE Msg(st, e)
Deliver(st, x) ==
    IF x.sig # x.who THEN [ok |-> FALSE, st |-> st]
    ELSE LET y == FoldLeft(LAMBDA a, e : IF a.ok THEN MsgIn(a.st, e) ELSE a, [ok |-> TRUE, st |-> st], x.es)
         IN  IF y.ok THEN y ELSE [ok |-> FALSE, st |-> st]
\* A whole block; res: for each transaction, whether it succeeds. What runs
\* out of gas is taken from the observation, where little gas was allowed.
WholeBlock(st, e) ==
    LET y == FoldLeft(LAMBDA a, x : IF x.r = "gas" /\ x.gas < 1000000 THEN [a EXCEPT !.res = Append(@, "gas")]
                                    ELSE LET z == Deliver(a.st, x) IN
                                         [st |-> z.st, res |-> Append(a.res, IF z.ok THEN "ok" ELSE "rej")],
                      [st |-> BeginBlock(st, e.h, e.t), res |-> <<>>], e.txs)
        s == EndBlock(y.st)
    IN  [st |-> s, res |-> y.res]

\* The first block of a chain that begins with what another one exports.
Begun(e) == "how" \in DOMAIN e /\ \E k \in DOMAIN e.how : e.how[k] \in {"fork", "fork0"}

Chain(pre, l, post) ==
    LET x == WholeBlock(pre, l.e) IN
    Cl("the block is executed", l.r = "ok")
    \cup (IF l.r # "ok" THEN {} ELSE
          Cl("crashes, restarts and questions change nothing", l.x.dig = "same")
          \cup Cl("results of the transactions", x.res = [k \in DOMAIN l.e.txs |-> l.e.txs[k].r])
          \cup Cl("state after the block", ~x.st.bad /\ Diff(x.st, post) = {}))

\* ------------------------------------------------------------ properties
\* Events that must do exactly what the specification says, by property.
ExactEvents ==
    [C03 |-> {"begin"}, C04 |-> {"cancel", "cancelall"}, C06 |-> {"limit", "market", "mm"}, C11 |-> {"deposit"},
     C12 |-> {"withdraw"}, C13 |-> {"pool", "rpool"}, C14 |-> {"mm"}, C15 |-> {"pair"}, C20 |-> {"params"}]

Exact(p, e) == p \in DOMAIN ExactEvents /\ e.m \in ExactEvents[p]

\* Parts of an executed batch, a: specified state after, b: observed state after.
Tags(p, pre, a, b) ==
    IF ~Aligned(a, b) THEN {"entries lost"} ELSE
    CASE p = "C02" -> Cl("exact payments", \A k \in DOMAIN b.orders :
                          (a.orders[k].open = b.orders[k].open) => (a.orders[k].rem = b.orders[k].rem /\ a.orders[k].recv = b.orders[k].recv))
      [] p = "C05" -> Cl("the last batch of an expiring order", \A k \in DOMAIN b.orders :
                          (IsLive(pre.orders[k]) /\ Expired(pre.orders[k], pre.t)) => a.orders[k] = b.orders[k])
      [] p = "C07" -> Cl("exact dust", (\A k \in DOMAIN b.orders : a.orders[k].open = b.orders[k].open)
                          => SameSup([d \in DOMAIN Get(a.bal, pre.par.dust, <<>>) |-> a.bal[pre.par.dust][d]],
                                     [d \in DOMAIN Get(b.bal, pre.par.dust, <<>>) |-> b.bal[pre.par.dust][d]]))
      [] p = "C08" -> Cl("exact fills", \A k \in DOMAIN b.orders : a.orders[k].open = b.orders[k].open)
      [] p = "C09" -> Cl("exact price", \A k \in DOMAIN b.pairs : a.pairs[k].last = b.pairs[k].last)
      [] p = "C10" -> Cl("exact pool trades", \A k \in DOMAIN b.pools :
                          LET pr == PairOf(b, b.pools[k].pair) IN
                          /\ PoolTraded(pre, a, k, pr.base) = PoolTraded(pre, b, k, pr.base)
                          /\ PoolTraded(pre, a, k, pr.quote) = PoolTraded(pre, b, k, pr.quote))
      [] OTHER -> {}
Tagged == {"C02", "C05", "C07", "C08", "C09", "C10"}

Law(p, pre, e, r, post) ==
    CASE p = "C01" -> Solvency(pre, e, r, post)
      [] p = "C02" -> LimitsKept(pre, e, r, post)
      [] p = "C03" -> Lifecycle(pre, e, r, post)
      [] p = "C04" -> Cancellation(pre, e, r, post)
      [] p = "C05" -> Expiration(pre, e, r, post)
      [] p = "C07" -> Balanced(pre, e, r, post)
      [] p = "C09" -> Prices(pre, e, r, post)
      [] p = "C10" -> PoolValue(pre, e, r, post)
      [] p = "C11" -> Deposits(pre, e, r, post)
      [] p = "C12" -> Withdrawals(pre, e, r, post)
      [] p = "C13" -> PoolLife(pre, e, r, post)
      [] p = "C14" -> MarketMaking(pre, e, r, post)
      [] p = "C15" -> Identity(pre, e, r, post)
      [] p = "C20" -> Governance(pre, e, r, post)
      [] p = "C21" -> Fees(pre, e, r, post)
      [] p = "C22" -> OnTicks(pre, e, r, post)
      [] OTHER -> {}

\* Messages.
MsgKinds == {"pair", "pool", "rpool", "deposit", "withdraw", "limit", "market", "mm", "cancel", "cancelall", "params"}
ExtraGas(par, m) == CASE m = "deposit" -> par.dgas [] m = "withdraw" -> par.wgas
                      [] m \in {"limit", "market", "mm"} -> par.ogas [] OTHER -> 0

Obs(p, pre, l, post) ==
    LET e == l.e IN
    CASE p = "C17" -> IF e.m # "genesis" THEN {}
                      ELSE Cl("export and import succeed", l.r = "ok")
                           \cup (IF l.r # "ok" THEN {} ELSE
                                 Cl("the imported state is the exported one", Diff(pre, post) = {})
                                 \cup Cl("every stored entry is back", l.x.dig = "same"))
      [] p = "C19" -> Cl("blocks never fail", l.r # "halt" \/ e.m \notin {"begin", "end"})
      [] p = "C21" -> IF l.r = "ok" THEN Cl("extra gas is charged", l.x.gas >= ExtraGas(pre.par, e.m)) ELSE {}
      [] p = "C23" -> IF e.m \in MsgKinds
                      THEN Cl("malformed messages are refused", e.m = "params" \/ l.x.vb = MsgOK(e))
                           \cup Cl("a refused message has no effect", l.x.vb \/ (l.r = "rej" /\ Diff(pre, post) = {}))
                           \cup Cl("the sender signs", ~l.x.vb \/ e.m = "params" \/ l.x.sg = <<e.who>>)
                      ELSE {}
      [] OTHER -> {}

\* The alarms that the exchange must raise in a state, and what it raised.
Short(st, a, need) == \E d \in Denoms(need) : BLt(Bal(st, a, d), AmtOf(need, d))
Broken(st) ==
    LET deps == SelectSeq(st.deps, LAMBDA q : q.st = "new")
        wds  == SelectSeq(st.wds, LAMBDA q : q.st = "new")
        live(p) == SelectSeq(st.orders, LAMBDA o : o.pair = p /\ IsLive(o))
        mmof(u, p) == Cardinality({k \in DOMAIN st.orders : LET o == st.orders[k] IN
                                    o.who = u /\ o.pair = p /\ o.typ = "mm" /\ IsLive(o)})
    IN  (IF Short(st, "gesc", FlattenSeq([k \in DOMAIN deps |-> deps[k].coins])) THEN {"deposit-coins-escrow"} ELSE {})
        \cup (IF Short(st, "gesc", [k \in DOMAIN wds |-> <<wds[k].pcd, wds[k].pc>>]) THEN {"pool-coin-escrow"} ELSE {})
        \cup (IF \E k \in DOMAIN st.pairs : LET os == live(st.pairs[k].id) IN
                   Short(st, st.pairs[k].esc, [j \in DOMAIN os |-> <<os[j].od, os[j].rem>>]) THEN {"remaining-offer-coin-escrow"} ELSE {})
        \cup (IF \E k \in DOMAIN st.pools : ~st.pools[k].dis /\ IsZ(PsOf(st, st.pools[k])) THEN {"pool-status"} ELSE {})
        \cup (IF \E k \in DOMAIN st.mm : st.mm[k].n = 0 \/ st.mm[k].n # mmof(st.mm[k].u, st.mm[k].pair) THEN {"num-mm-orders"} ELSE {})
Alarms(st, a) ==
    LET want == Broken(st) got == Range(a.on) IN
    Cl("the alarms raised are the right ones", got = want)
    \cup Cl("any alarm is the alarm of the exchange", ~a.pan /\ a.all = (want # {}))

Viol(p, pre, l, post) ==
    LET e == l.e
        x == Exp(pre, e)
    IN  IF l.r = "corrupt" THEN {"what is stored cannot be read"}
        ELSE IF l.r = "hang" THEN (IF p = "C19" \/ Exact(p, e) \/ (p \in Tagged /\ e.m = "end") THEN {"it never ends"} ELSE {})
        ELSE IF e.m = "obs" THEN QueryLaws(p, post, e.qs)
                            \cup (IF p = "C16" THEN Cl("a question changes nothing", Diff(pre, post) = {}) ELSE {})
        ELSE IF e.m = "doc" THEN
             (IF p # "C18" THEN {} ELSE
                Cl("a document is accepted exactly if it makes sense", (l.r = "ok") = DocOK(e.g))
                \cup Cl("the exchange contains what the document says", l.r = "rej" \/ ~DocOK(e.g) \/ SameDoc(e.g, e.g2[1]))
                \cup Cl("judging a document changes nothing", Diff(pre, post) = {}))
        ELSE IF e.m = "inv" THEN
             (IF p # "C26" THEN {} ELSE
                UNION {Alarms(IF e.vs[k].s = <<>> THEN post ELSE e.vs[k].s[1], e.vs[k].a) : k \in DOMAIN e.vs}
                \cup Cl("the exchange keeps its books", Broken(post) = {})
                \cup Cl("asking for alarms changes nothing", Diff(pre, post) = {}))
        ELSE IF e.m = "block" THEN (IF p \in {"C25", "C00"} \/ (p = "C17" /\ Begun(e)) THEN Chain(pre, l, post)
                                    ELSE IF p = "C19" THEN Cl("the block is executed", l.r = "ok") ELSE {})
        ELSE IF e.m = "det" THEN (IF p = "C19" THEN Cl("two executions of a history agree", l.x.dig = "same") ELSE {})
        ELSE IF e.m \notin MsgKinds \cup {"begin", "end", "send", "genesis"} THEN {}
        ELSE Law(p, pre, e, l.r, post)
             \cup Obs(p, pre, l, post)
             \cup (IF Exact(p, e)
                   THEN Cl("result", x.r = l.r) \cup (IF x.r = l.r THEN Cl("effect", Diff(x.st, post) = {}) ELSE {})
                   ELSE {})
             \cup (IF p \in Tagged /\ e.m = "end" /\ l.r = "ok" /\ x.r = "ok" THEN Tags(p, pre, x.st, post) ELSE {})
             \cup (IF p = "C00" THEN Cl("conformance", x.r = l.r /\ Diff(x.st, post) = {}) ELSE {})

Check ==
    LET l == Line(sh, i) IN
    l.e.m = "init" \/
    \A p \in Props :
      LET v == Viol(p, Pre(sh, i), l, Post(sh, i)) IN
      v = {} \/ PrintT(<<"VIOL", p, sh, i, l.e.m, v>>)
=============================================================================
