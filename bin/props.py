#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "x/dex/keeper/"
A = "x/dex/amm/"
T = "x/dex/types/"
HIST = "every sequence of accepted and rejected messages, transfers, parameter changes and blocks, by any number of users, on any number of pairs and pools, with any amounts and prices the messages admit"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

MSG = "the results of messages sent through the application's message router, and the state read through the keeper after each"
END = "orders, pools, pairs and balances before and after each end of block"

p("C01", "Escrowed coins always cover what users are owed, and no coin is made or lost",
  "At every moment each pair's escrow holds exactly the unspent offers of its live orders, and the common escrow exactly the coins of the pending deposit and withdrawal requests (beyond what somebody sent there unasked). "
  "Trading, settling and cancelling pay every coin to the owner of the order or request, to a pool or to the dust collector: the supply of traded coins never changes, and nobody else's balance moves. "
  "A rejected message moves no coin at all.",
  ["histories", "inputs"], HIST + "; checked after every single step",
  "A unit test checks the balances of the few accounts it names after one scripted scene; conservation is a statement about every account and coin after every step of every history, and about rounding leftovers that only odd amounts produce.",
  [K + "swap.go", K + "pool.go", K + "invariants.go", T + "util.go"],
  [("order escrow in and out", K + "swap.go placeOrder, FinishOrder, ApplyMatchResult"), ("request escrow", K + "pool.go Deposit, Withdraw, FinishDepositRequest, FinishWithdrawRequest"), ("bulk payments", T + "util.go BulkSendCoinsOperation")],
  [MSG, "all balances and supplies of the bank"],
  [("escrow balances", "coins held for orders and requests", "bank balances of the pair escrow and common escrow addresses")])
p("C02", "A trade never costs an owner more, or brings less, than the order allows",
  "A buy order receives exactly the amount it buys and pays for it at most its limit price, and a sell order gives exactly the amount it sells and receives at least its limit price, up to the rounding of single coins, in every batch. "
  "No order ever spends more than it offered or trades more than its amount, and what it paid and received follows from the prices at which it was filled. "
  "An order that does not trade neither pays nor receives.",
  ["histories", "inputs"], HIST + "; checked for every order in every batch",
  "Tests fill a few books with round numbers at one or two prices; the bound must hold for every mix of orders, pools, batches, price scales and partial fills over several batches.",
  [K + "swap.go", A + "match.go", A + "util.go"],
  [("filling orders", A + "match.go FillOrder, DistributeOrderAmountToOrders, DistributeOrderAmountToTick"), ("offer amounts", A + "util.go OfferCoinAmount, MatchableAmount"), ("booking results", K + "swap.go ApplyMatchResult")], [END])
p("C03", "Orders go through their life in one direction, exactly as batches decide",
  "An accepted order message makes exactly one order with the terms of the message, which never change afterwards; it is then not executed, not matched, partially matched, and finally completed, cancelled or expired, as its fills, its expiry and its cancellation say, and a finished order never changes again. "
  "It is completed exactly when nothing of its amount is open, and only batches and cancellations change orders. "
  "Finished orders are removed at the beginning of the next block and live ones never are.",
  ["histories", "schedules"], HIST + ", and every placement of messages relative to batch boundaries",
  "The status of an order depends on several batches with partial fills, on batch sizes over one, and on what happens between; tests follow one or two orders through one path.",
  [K + "swap.go", K + "batch.go", T + "order.go", T + "request.go"],
  [("status changes", K + "swap.go ExecuteMatching, ApplyMatchResult, FinishOrder"), ("removal", K + "batch.go DeleteOutdatedRequests"), ("new orders", K + "swap.go placeOrder")],
  ["the stored orders after every message, begin and end of block"])
p("C04", "Only the owner cancels an order, later than its own batch, for an exact refund",
  "A cancellation succeeds for the owner of a live order once the batch it was placed in is over, and for nobody else and no other order; it ends the order at once and returns exactly the unspent rest of its offer. "
  "Cancelling all orders ends precisely the sender's orders that may be cancelled, on the given pairs or on every pair if none is given, and no others. "
  "A refused cancellation changes nothing.",
  ["histories", "inputs"], HIST + "; every combination of sender, pair list, order state and batch",
  "Who may cancel what depends on owner, batch and the state of every order on several pairs at once; tests try a handful of combinations, and only check what they cancel, not what they must leave alone.",
  [K + "swap.go", K + "msg_server.go"],
  [("one order", K + "swap.go ValidateMsgCancelOrder, CancelOrder"), ("all orders", K + "swap.go CancelAllOrders"), ("refund", K + "swap.go FinishOrder")], [MSG])
p("C05", "Orders expire exactly at their lifespan, after at least one batch",
  "An accepted order has an expiry exactly its requested lifespan after the block time, which never exceeds the allowed maximum, and it takes part in at least one batch whatever its lifespan. "
  "In the first batch that runs at or after its expiry an order that has already been through a batch does not trade any more, and every expired order, and every order whose open rest is too small to trade, is ended with its rest refunded. "
  "No order is expired earlier, outside a batch, or kept beyond such a batch.",
  ["histories", "schedules"], HIST + ", with every relation of block times, lifespans and batch boundaries",
  "It quantifies over block times and batch sizes; tests use one lifespan and one later block.",
  [K + "swap.go", T + "order.go", T + "request.go"],
  [("expiry in the batch", K + "swap.go ExecuteMatching"), ("expiry time and limit", K + "swap.go placeOrder"), ("expiry tests", T + "order.go ExpiredAt")], [END])
p("C06", "An order is admitted exactly when the rules allow it, with exact terms",
  "A limit, market or market making order is accepted exactly when its pair exists, its coins are the pair's, its lifespan and amount are within bounds, its price is within the limits around the last price (where there is one), its offer covers the amount at that price and the sender can pay it. "
  "An accepted order has precisely the price rounded to a tick in the owner's favour, the amount, the batch and the escrowed offer that follow, and the excess of the offer stays with the sender; a market order gets the outermost price allowed. "
  "A refused order has no effect.",
  ["inputs", "configurations", "histories"], "every order message, in every state of the pair and under all parameter settings",
  "Admission is a conjunction of many bounds with rounding at each edge; tests take a few points on each side of some of them.",
  [K + "swap.go", T + "util.go", A + "tick.go", A + "util.go", T + "msgs.go"],
  [("admission", K + "swap.go placeOrder, LimitOrder, MarketOrder, MMOrder"), ("price limits", T + "util.go PriceLimits; " + K + "swap.go PriceLimits"), ("offer needed", A + "util.go OfferCoinAmount")], [MSG])
p("C07", "Each batch balances: sold equals bought, and paid equals received plus dust",
  "In every batch of a pair the base coins given by sellers and pools equal those received by buyers and pools, and buyers never pay less quote coins than sellers receive. "
  "The difference is only rounding dust, it goes to the dust collector entirely, and there is none where nothing traded. "
  "No coins move between a pair and its pools outside an executed batch.",
  ["histories", "inputs"], HIST + "; for every pair in every batch",
  "The balance breaks only for particular amounts and prices, where the roundings of several orders in several groups meet; the existing tests sum up a few hand-made books.",
  [A + "match.go", A + "util.go", K + "swap.go"],
  [("matching in two phases", A + "match.go Match, MatchAtSinglePrice"), ("proportional distribution", A + "match.go DistributeOrderAmountToTick, DistributeOrderAmountToOrders"), ("dust", K + "swap.go ApplyMatchResult")], [END])
p("C08", "Fills follow price, then batch, then amount: the best priced and older go first",
  "Which orders of a pair are filled in a batch and by how much is decided by the published rule alone: better prices first, at one price orders of earlier batches first, and within a batch in proportion to the open amounts, with the remainder given by a fixed priority. "
  "The first batch of a pair maximises the traded amount at one price; later ones move from the last price in the direction of the stronger side until demand and supply are exhausted. "
  "The outcome does not depend on the order in which messages arrived, beyond that rule.",
  ["histories", "schedules", "inputs"], HIST + "; the fills of every order of every batch",
  "The outcome is a function of the whole book, pools included, over several batches; tests pin it for a few dozen books.",
  [A + "match.go", A + "orderbook.go", A + "util.go", T + "order.go", K + "swap.go"],
  [("matching", A + "match.go Match, FindMatchPrice, FindMatchableAmountAtSinglePrice"), ("ticks of the book", A + "orderbook.go"), ("priority", A + "util.go SortOrders, GroupOrdersByBatchId; " + T + "order.go HasPriority")], [END])
p("C09", "The last price is that of the last trade, on a tick and within limits",
  "The last price of a pair changes only in an executed batch in which the pair trades, and then becomes the price of that batch. "
  "It is a tick, and differs from the one before by at most the allowed ratio (the one in force, or the one under which a standing order was placed); the number of the batch grows by one with every executed batch and never otherwise. "
  "A pair that has not traded yet has no last price, and its first price maximises what can be traded.",
  ["histories", "inputs"], HIST,
  "Price discovery depends on the whole book; tests look at the price after a few scripted batches.",
  [A + "match.go", K + "swap.go"],
  [("price of the first batch", A + "match.go FindMatchPrice; " + K + "swap.go Match"), ("price of later batches", A + "match.go Match, PriceDirection"), ("storing it", K + "swap.go ExecuteMatching")], [END])
p("C10", "A pool trades along its own curve only, and never loses value by trading",
  "In a batch a pool gives at most what its curve offers at each price and receives the other coin in return, never both or neither, and never more than it holds. "
  "The product of the reserves of a basic pool never falls by trading, apart from the rounding of single coins, and a ranged pool trades only between its two prices. "
  "A disabled pool does not trade, and pools trade precisely what the published matching rule gives them.",
  ["histories", "inputs"], HIST + "; every pool in every batch, for all reserves and price ranges",
  "The amounts come from long chains of rounded divisions and roots at every tick; tests sample a few pools at a few prices.",
  [A + "pool.go", T + "pool.go", K + "swap.go"],
  [("basic pool curve", A + "pool.go BasicPool"), ("ranged pool curve", A + "pool.go RangedPool, DeriveTranslation"), ("orders of a pool", A + "pool.go PoolOrders, PoolBuyOrders, PoolSellOrders")], [END])
p("C11", "A deposit gives pool coins in proportion to what it adds, and returns the rest",
  "Every accepted deposit request is settled in the next executed batch: the pool takes both coins in the proportion of its reserves, at most what was offered, and mints pool coins never worth more than that share; what is not taken returns to the depositor. "
  "If the pool is disabled or empty by then, or no pool coin would be minted, the deposit fails and is refunded in full. "
  "Requests for missing or disabled pools, for wrong coins, or beyond the sender's balance are refused without effect.",
  ["histories", "inputs"], HIST + "; all reserves, supplies and deposits",
  "The rounding goes against earlier shareholders for particular ratios of reserves, supply and deposit only; tests use a few round ones.",
  [K + "pool.go", A + "pool.go", T + "pool.go"],
  [("the rule", A + "pool.go Deposit"), ("admission", K + "pool.go ValidateMsgDeposit, Deposit"), ("execution", K + "pool.go ExecuteDepositRequest, FinishDepositRequest")], [MSG, END])
p("C12", "A withdrawal pays the exact share less the fee, and the last share takes all",
  "Every accepted withdrawal request is settled in the next executed batch: its pool coins are burnt and pay the proportional share of both reserves, less the withdrawal fee, rounded down; a withdrawal of the whole supply takes everything. "
  "If the pool is disabled or empty by then, or nothing would be paid, the withdrawal fails and the pool coins are returned. "
  "Requests with coins of another pool, for disabled pools or beyond the sender's balance are refused without effect.",
  ["histories", "inputs"], HIST + "; all reserves, supplies, shares and fee rates",
  "Same as for deposits: what remains for the others depends on rounding over long histories of deposits, trades and withdrawals.",
  [K + "pool.go", A + "pool.go"],
  [("the rule", A + "pool.go Withdraw"), ("admission", K + "pool.go ValidateMsgWithdraw, Withdraw"), ("execution", K + "pool.go ExecuteWithdrawRequest, FinishWithdrawRequest")], [MSG, END])
p("C13", "Pools are created by the rules, and disabled for ever exactly when depleted",
  "A pool is created exactly when its pair exists, its coins and prices are allowed and above the minimum, the number of active pools of the pair permits it and, for a basic pool, the pair has no other active one; its creator receives the initial pool coins of the rule. "
  "A pool's terms never change, and it is disabled in a batch exactly when its reserves or its supply are used up. "
  "A disabled pool stays disabled, does not trade, and takes no requests.",
  ["histories", "inputs", "configurations"], HIST + "; all initial deposits and price ranges, all limits on pools",
  "Depletion depends on trades and withdrawals over many batches; the creation rule has many edges (one-sided ranges, minimum amounts, limits).",
  [K + "pool.go", A + "pool.go", K + "batch.go"],
  [("creation", K + "pool.go ValidateMsgCreatePool, CreatePool, ValidateMsgCreateRangedPool, CreateRangedPool"), ("initial amounts", A + "pool.go CreateBasicPool, CreateRangedPool, InitialPoolCoinSupply"), ("disabling", K + "pool.go MarkPoolAsDisabled; swap.go ExecuteMatching")], [MSG, END])
p("C14", "The number of market making orders per user and pair is exact and limited",
  "For every user and pair the recorded number of market making orders is exactly the number of their market making orders that are alive, after every message and every batch. "
  "A market making order beyond the limit is refused, and one within it is never refused for that reason. "
  "Completion, expiry and cancellation each give the place back at once.",
  ["histories"], HIST + "; with any mixture of completions, expiries, cancellations and limit changes",
  "A counter drifts only over histories in which orders end in different ways in the same batch; tests end one order in one way.",
  [K + "swap.go", K + "store.go"],
  [("counting up", K + "swap.go MMOrder"), ("counting down", K + "swap.go FinishOrder"), ("the record", K + "store.go GetNumMMOrders, SetNumMMOrders, DeleteNumMMOrders")], [MSG, END])
p("C15", "Pairs, pools, orders and requests get fresh consecutive numbers, never reused",
  "Every pair, pool, order of a pair, and deposit or withdrawal request of a pool gets the number after the last one given out, even if the earlier ones are gone, and no two share one; the escrow and reserve accounts and the pool coin of each are its own. "
  "A pair of a base and a quote coin exists at most once, and the two coins differ. "
  "A rejected message uses up no number.",
  ["histories"], HIST + ", with genesis exports and imports in between",
  "Reuse shows only after entries have been removed, or across an export and import.",
  [K + "pair.go", K + "pool.go", K + "store.go", T + "keys.go"],
  [("pair and order numbers", K + "pair.go getNextPairIdWithUpdate, getNextOrderIdWithUpdate"), ("pool and request numbers", K + "pool.go getNextPoolIdWithUpdate, getNextDepositRequestIdWithUpdate"), ("addresses", T + "pair.go PairEscrowAddress; pool.go PoolReserveAddress, PoolCoinDenom")], [MSG])
p("C17", "Exporting the exchange and importing it again loses and changes nothing",
  "In every reachable state the exchange can be exported, its export passes validation, and importing it into an empty exchange restores every stored entry: parameters, counters, pairs, pools, requests, orders, the numbers of market making orders, and everything used to look them up. "
  "The restored exchange behaves as the original would have.",
  ["histories", "configurations"], "every state reachable by " + HIST,
  "It is a statement about all reachable states, with requests pending, orders partly filled, pools disabled; tests round-trip an almost empty one.",
  [K + "genesis.go", "x/dex/module/genesis.go", T + "genesis.go", "x/dex/module/module.go"],
  [("export and import", K + "genesis.go InitGenesis, ExportGenesis; x/dex/module/genesis.go"), ("validation", T + "genesis.go Validate")],
  ["the raw store of the exchange before an export and after its import through the application's module", "the further course of the history after it"])
p("C18", "A genesis document is accepted exactly if the exchange can start from it",
  "A document is refused if any entry is malformed (zero number or height, bad address, denomination, amount, price, direction or status), has a number beyond the last one given out, or occurs twice, "
  "or if a pool, order, deposit or withdraw request refers to a pair or pool that is not in it, or names coins other than those of its pair or pool. "
  "Every other document is accepted, and the exchange then contains precisely its entries, counters and parameters.",
  ["inputs", "histories"], "every change of one or two things in a document exported after " + HIST,
  "Some seventy conditions, each tested for one entry at one place of one hand-written document, if at all; a condition may fail only for the second entry, or only together with entries of another kind.",
  [T + "genesis.go", T + "pair.go", T + "pool.go", T + "request.go", T + "params.go", K + "genesis.go", "x/dex/module/module.go"],
  [("validation", T + "genesis.go GenesisState.Validate; pair.go, pool.go, request.go Validate"), ("start", K + "genesis.go InitGenesis")],
  ["the application's module: ValidateGenesis, InitGenesis into an empty store, and the export after it"])
p("C19", "Blocks never fail, and every node computes the same result",
  "Whatever messages were accepted, the beginning and the end of every block succeed: no order, pool, request, price, amount or admitted parameter makes them fail or run forever. "
  "Executing the same history again gives the same results, state and gas.",
  ["histories", "inputs", "configurations"], HIST + ", with parameters up to every bound that governance can set",
  "A halt comes from one accepted extreme; tests use ordinary amounts, and run everything once.",
  [K + "batch.go", K + "swap.go", "x/dex/module/module.go", "x/dex/module/abci.go", A + "match.go", A + "pool.go"],
  [("block hooks", "x/dex/module/module.go BeginBlock, EndBlock; " + K + "batch.go ExecuteRequests, DeleteOutdatedRequests"), ("map iteration", A + "match.go DistributeOrderAmountToOrders; util.go GroupOrdersByBatchId")],
  ["errors and panics of the block hooks", "results, gas, store and balances of repeated executions"])
p("C20", "Only governance changes parameters, and only to usable values",
  "The parameters of the exchange change only by a message of the governance authority, to exactly the values it names and all at once, and take effect from then on. "
  "Values that are malformed or with which the exchange could not work are refused, and every usable set is accepted. "
  "Changing parameters touches no order, pool, request or balance.",
  ["inputs", "configurations", "histories"], "every parameter message from every sender in every state",
  "Each of seventeen fields has its own bounds; tests try a few bad values of some.",
  [K + "msg_server.go", K + "params.go", T + "params.go"],
  [("authority", K + "msg_server.go UpdateParams; keeper.go NewKeeper"), ("bounds", T + "params.go Validate")], [MSG])
p("C21", "Creation fees and extra gas are charged exactly, and only where due",
  "Creating a pair or a pool takes exactly the fee in force from the creator to the fee collector in force, and nothing else from anybody beyond what the creator puts into the pool; without the fee there is no creation. "
  "Orders, deposits and withdrawals pay no fee, and consume at least the extra gas in force.",
  ["inputs", "configurations", "histories"], "every creation, order, deposit and withdrawal in every state, under all fee settings and collectors",
  "Tests create with one fee setting and look at one balance.",
  [K + "pair.go", K + "pool.go", K + "swap.go", K + "params.go"],
  [("pair fee", K + "pair.go CreatePair"), ("pool fee", K + "pool.go CreatePool, CreateRangedPool"), ("extra gas", K + "pool.go Deposit, Withdraw; swap.go placeOrder; msg_server.go")], [MSG])
p("C22", "Every price in the exchange is on a tick, rounded for its owner",
  "Prices of new orders are rounded to the ticks of the precision in force, buys down and sells up, never across a tick and never when they are on one already; ranged pools are created on ticks only. "
  "Last prices are ticks.",
  ["inputs", "configurations"], "every price over the whole range of representable ones, under every tick precision",
  "Ticks change their width at powers of ten; tests sample a few tens of prices at one precision.",
  [A + "tick.go", K + "swap.go", K + "pool.go"],
  [("rounding", A + "tick.go PriceToDownTick, PriceToUpTick"), ("pool prices", K + "pool.go ValidateMsgCreateRangedPool")], [MSG])
p("C23", "Malformed messages are refused outright, and every message needs its sender",
  "A message with an invalid sender, number, coin, denomination, direction, amount, price or lifespan is refused by its stateless validation and has no effect, and a well-formed one passes it. "
  "The only required signature of every message is that of the account which it spends from and acts for.",
  ["inputs"], "every message of every type with every field malformed in any way",
  "Tests take a table of single-field mutations.",
  [T + "msgs.go", T + "codec.go", "proto/defund/dex/tx.proto"],
  [("stateless validation", T + "msgs.go ValidateBasic"), ("signers", T + "msgs.go GetSigners; proto option signer")], ["stateless validation and required signers of each message, and its effect through the message router"])

p("C16", "Every lookup, listing and page shows exactly what is stored",
  "Whatever is stored is found by its number, by its owner, by its pair, by its denominations, and in every listing and filter, exactly once and with exactly its current values; what is not stored is not found. "
  "The pages of a listing, in either direction and of any size, make up exactly the whole listing. "
  "A pool is shown with its current reserves, supply and price, in every reachable state and for every admissible denomination, and a question changes nothing.",
  ["histories", "inputs"], "every query with every filter and page in every state reachable by " + HIST + ", blocks half done included",
  "The indexes drift from the entries only over histories in which entries come and go, and key encodings fail for particular lengths only; tests query a small store right after filling it.",
  [K + "grpc_query.go", K + "store.go", T + "keys.go", T + "util.go", K + "pool.go", K + "pair.go"],
  [("queries", K + "grpc_query.go"), ("indexes", K + "store.go SetOrderIndex, SetPoolByPairIndex, SetDepositRequestIndex, SetWithdrawRequestIndex, SetPairLookupIndex"), ("key encoding", T + "keys.go"), ("pools as shown", T + "util.go NewPoolResponse")],
  ["the answers of the application's query router, after messages and blocks, and in the middle of blocks"])
p("C24", "The order book shown is the real book, at the right prices and amounts",
  "The order book that is shown for a pair has, at each price unit, exactly the open amounts of all live orders and active pools of the pair left after an imaginary batch, buy amounts rounded to lower and sell amounts to higher prices. "
  "Its best prices are those of the book, no amount appears twice or is missing, and a pair that never traded has no book. "
  "Asking never fails and changes nothing.",
  ["histories", "inputs", "configurations"], "every order book query with every list of pairs, price unit powers and number of ticks, in every state reachable by " + HIST,
  "The view is built by a second implementation of matching, separate from the one that trades; tests compare a few books with what somebody wrote down.",
  [A + "view.go", A + "tick.go", T + "orderbook.go", K + "grpc_query.go"],
  [("view of the book", A + "view.go OrderBookView"), ("price units", T + "orderbook.go MakeOrderBookResponse, OrderBookBasePriceUnit"), ("query", K + "grpc_query.go OrderBooks")],
  ["the answers of the order book query through the application's query router"])
p("C25", "Transactions happen wholly or not at all, and crashes and questions are harmless",
  "A block of transactions has the effect of its messages in order: a transaction takes effect only if its sender signed it and every one of its messages succeeds within its gas; otherwise none of its messages leaves a trace. "
  "A node that checks and simulates transactions, is asked for state, crashes after it has executed a block but before it has stored it, or is restarted computes the same results and the same state as one that does not.",
  ["histories", "crash_points", "schedules"], "every sequence of blocks of signed transactions on two nodes with the same genesis, one of which is asked, crashes and restarts",
  "Whatever is kept in memory, or written before the point of failure, is right until a node restarts or a later message of the same transaction fails; the tests call single messages on one keeper that never restarts.",
  [K + "keeper.go", K + "store.go", K + "msg_server.go", "x/dex/module/module.go", "app/app.go"],
  [("messages", K + "msg_server.go"), ("state", K + "store.go"), ("assembly of the application", "app/app.go, app/app_config.go"), ("blocks", "x/dex/module/abci.go")],
  ["results, state hash and exported state of two complete applications driven through FinalizeBlock, Commit, CheckTx, Simulate and Query"])

p("C26", "The exchange's own alarms go off exactly when its books are broken",
  "In every state the exchange's invariants answer correctly: the escrow accounts hold less than the pending deposits, the pending withdrawals or the open orders of a pair need, "
  "a pool without supply is not disabled, or a recorded number of market making orders is wrong, if and only if the invariant of that name is broken, and any of them breaks the whole. "
  "No state that the exchange got to by itself breaks one, and asking changes nothing.",
  ["histories", "inputs"], "every state reachable by " + HIST + ", and every damaged copy of it in which coins, records or statuses are missing or changed",
  "An alarm that cannot go off, or only for the first pair or coin, looks exactly like one that has no reason to; tests damage one thing in one small state.",
  [K + "invariants.go"],
  [("invariants", K + "invariants.go DepositCoinsEscrowInvariant, PoolCoinEscrowInvariant, RemainingOfferCoinEscrowInvariant, PoolStatusInvariant, NumMMOrdersInvariant"), ("all of them", K + "invariants.go AllInvariants, RegisterInvariants")],
  ["the invariants as the exchange registers them, asked on branches of the application's state"])

if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(V, "bin"))
    from plan import PLAN
    extra = os.path.join(V, "bin", "props_more.py")
    if os.path.exists(extra):
        exec(open(extra).read())
    P.sort(key=lambda q: q["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    from plan import TECH, NOTE
    fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "a1bfb70..HEAD"], capture_output=True, text=True).stdout.split("\n")
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the driver is compiled into /repo's module through go test -overlay", "source_commits": []},
         "checks": [{"property": q["id"], "quick_cmd": "python3 bin/check.py %s quick" % q["id"],
                     "thorough_cmd": "python3 bin/check.py %s thorough" % q["id"],
                     "evidence_file": "evidence/%s.json" % q["id"], "technique": TECH.get(q["id"], TECH["*"]),
                     "level": "model_checking", "level_note": NOTE.get(q["id"], NOTE["*"])} for q in P if q["id"] in PLAN],
         "not_applicable": [{"property": q["id"], "reason": "no check yet"} for q in P if q["id"] not in PLAN]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
