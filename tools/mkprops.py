import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    pass
    pass
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
M="x/dex/amm/match.go"; K="x/dex/keeper/"; T="x/dex/types/"
p("C01","A fill is priced exactly and never exceeds what the order offered",
 "Whenever an order is filled by some amount at a match price, a buyer receives that amount and pays amount times price rounded up, and a seller pays that amount and receives amount times price rounded down. The amount an order can be matched for never exceeds its open amount and, for a buyer, is never more than its unspent offer coin can pay for at that price, so nobody ever pays more than was offered. An amount whose value at the price rounds down to zero is never matched.",
 ["inputs"],"every order (direction, price, amount, offer, fills so far), every fill amount and every positive price",
 "rounding boundaries of 18-digit decimals over unbounded integers; a test samples a few prices and amounts",
 [M,"x/dex/amm/util.go","x/dex/amm/order.go"],
 [("FillOrder",M),("FulfillOrder",M),("FulfillOrders",M),("MatchableAmount","x/dex/amm/util.go"),("OfferCoinAmount","x/dex/amm/util.go"),("BaseOrder accessors","x/dex/amm/order.go")])
p("C02","Matching neither creates nor loses coins",
 "When a batch of orders is matched, the quote coin difference reported equals everything the buyers paid minus everything the sellers received, and it is never negative. The base coin handed to buyers equals the base coin taken from sellers, and every order's received, paid and open amounts move consistently with its fill.",
 ["inputs","histories"],"every order book, every last price and every way the matched amount is spread over ticks, batches and orders",
 "depends on how amounts and roundings accumulate over any number of ticks and orders, which a handful of order books does not exhaust",
 [M,"x/dex/amm/util.go"],
 [("MatchAtSinglePrice",M),("Match",M),("DistributeOrderAmountToTick",M),("DistributeOrderAmountToOrders",M),("FulfillOrders",M)])
p("C03","Order escrow stays solvent and each order is settled exactly once",
 "Placing an order moves exactly its offer coin from the orderer into the pair's escrow account and records the same amount as remaining; completing, canceling or expiring it sends exactly the remaining offer coin back to the orderer and marks it finished. An order that is already completed, canceled or expired is never paid out or changed again. When matching results are applied, each order's remaining offer coin falls by what it paid, its open amount by what was matched, its received coin grows by what it received, and it is completed exactly when nothing is left open.",
 ["histories","inputs"],"every order and every sequence of placing, matching, canceling and expiring",
 "a leak of one coin on one combination of status, type and amount shows only in that history",
 [K+"swap.go",K+"batch.go",T+"request.go"],
 [("placeOrder",K+"swap.go"),("FinishOrder",K+"swap.go"),("ApplyMatchResult",K+"swap.go"),("ExecuteRequests",K+"batch.go")],
 ["pair escrow account balance","orders in the store"])
p("C04","A deposit never dilutes the pool and never takes more than offered",
 "A deposit accepts at most the offered amount of each coin and mints no more pool coins than the smaller of the two offered shares of the reserves. The accepted amount of each coin is at least the depositor's minted share of that reserve, so existing holders' share of the reserves never falls and depositing then withdrawing never yields a profit.",
 ["inputs"],"every reserve, pool coin supply and offered amount, including single-sided reserves",
 "rounding direction of four chained 18-digit decimal operations over unbounded integers",
 ["x/dex/amm/pool.go"],[("Deposit","x/dex/amm/pool.go")])
p("C05","A withdrawal pays at most the pro-rata share of the reserves",
 "Redeeming pool coins pays, for each reserve coin, at most the redeemed fraction of the reserve less the withdraw fee, and never a negative amount or more than the reserve. Redeeming the whole supply pays out the whole reserves.",
 ["inputs"],"every reserve, supply, redeemed amount up to the supply and fee rate between 0 and 1",
 "rounding direction of chained decimal operations over unbounded integers",
 ["x/dex/amm/pool.go"],[("Withdraw","x/dex/amm/pool.go")])
p("C06","Deposit and withdraw requests are escrowed, executed once and fully settled",
 "A deposit or withdraw request moves exactly the offered coins into the module's global escrow account when it is made; on execution the accepted part goes to the pool (or the pool coin is burned) and every other coin goes back to the requester, with pool coins minted or reserve coins paid out matching what the request records. A request is executed at most once, and a request against a disabled or depleted pool, or one that would yield nothing, is refunded in full and marked failed.",
 ["histories","inputs"],"every request, pool state and sequence of requests",
 "coin flow through four accounts on each outcome path; a test covers one amount on each path at most",
 [K+"pool.go",K+"batch.go"],
 [("Deposit/Withdraw message handling",K+"pool.go"),("ExecuteDepositRequest",K+"pool.go"),("FinishDepositRequest",K+"pool.go"),("ExecuteWithdrawRequest",K+"pool.go"),("FinishWithdrawRequest",K+"pool.go")],
 ["global escrow balance","request records"])
p("C07","A pool never offers more than it has nor worse than its own price",
 "The total a pool offers to buy up to a price never costs more than its quote reserve, and the total it offers to sell never exceeds its base reserve; for basic pools the product of the reserves does not fall when such an amount is traded at that tick price. A pool offers to buy nothing at or above its current price and to sell nothing at or below it, and nothing outside a ranged pool's price range in the covered direction.",
 ["inputs"],"every reserve, pool kind, translation and price",
 "needs all reserves and prices including extreme ones where decimal rounding decides",
 ["x/dex/amm/pool.go"],[("BuyAmountOver","x/dex/amm/pool.go"),("SellAmountUnder","x/dex/amm/pool.go"),("BuyAmountTo","x/dex/amm/pool.go"),("SellAmountTo","x/dex/amm/pool.go"),("PoolBuyOrders/PoolSellOrders","x/dex/amm/pool.go")])
p("C08","Price ticks: rounding is tight, neighbours are adjacent, indices round-trip",
 "Rounding a price down (up) to a tick gives the greatest tick not above (least tick not below) it, and a price already on a tick is unchanged. The next tick up or down from a price is strictly greater or smaller with no tick in between, and converting a tick to its index and back returns the tick, with indices increasing with price.",
 ["inputs"],"every positive price from the smallest decimal to the maximum price and every tick precision",
 "hundreds of decades times every precision; the boundaries at powers of ten are where errors hide",
 ["x/dex/amm/tick.go"],[("PriceToDownTick","x/dex/amm/tick.go"),("PriceToUpTick","x/dex/amm/tick.go"),("UpTick","x/dex/amm/tick.go"),("DownTick","x/dex/amm/tick.go"),("TickToIndex/TickFromIndex","x/dex/amm/tick.go"),("RoundPrice","x/dex/amm/tick.go"),("TickGap","x/dex/amm/tick.go")])
p("C09","An accepted order is on a tick, within price limits and charged exactly",
 "An accepted limit or market-making order carries its price rounded to a tick against the trader never past it (buy down, sell up) and within the allowed band around the last price; a market order needs a last price and takes the far edge of the band. The amount charged is exactly what the order needs at that price and never more than the coin offered, and orders that are too small, too long-lived, in the wrong denominations or not covered by spendable balance are rejected without effect.",
 ["inputs","histories"],"every message, parameter set and last price",
 "a large product of order type, direction, price, tick precision and balance",
 [K+"swap.go",T+"util.go",T+"request.go"],[("placeOrder",K+"swap.go"),("PriceLimits",T+"util.go"),("IsTooSmallOrderAmount",T+"util.go"),("NewOrder",T+"request.go")])
p("C10","Only the owner can cancel an order, and not in the batch it was placed",
 "A cancel succeeds only when the sender is the order's owner, the order is not already canceled and it was placed in an earlier batch; otherwise nothing changes. Cancel-all touches only the sender's own orders from earlier batches in the requested pairs (all pairs when none is named) and cancels every such live order.",
 ["histories","inputs"],"every order, sender, pair selection and batch",
 "an authorization hole shows only for the sender and state nobody tried",
 [K+"swap.go"],[("ValidateMsgCancelOrder",K+"swap.go"),("CancelOrder",K+"swap.go"),("CancelAllOrders",K+"swap.go")])
p("C11","Store keys are unambiguous and parse back to what they encode",
 "Every index key parses back to exactly the identifiers it was built from, for every address and denomination the chain accepts. Different identifiers never share a key, records of different kinds never share a key, and a scan by prefix sees only the records of the owner, pair or pool it names.",
 ["inputs"],"every pair of identifiers, address lengths 1..255 and denominations of 3..128 characters",
 "key collisions and length overflows depend on lengths tests do not use",
 [T+"keys.go"],[("key builders",T+"keys.go"),("key parsers",T+"keys.go"),("LengthPrefixString",T+"keys.go")])
p("C12","State survives export and import of genesis",
 "Exporting the module's state and importing it into an empty chain reproduces every parameter, counter, pair, pool, request, order and market-making order count, together with the lookup indices, and exporting again gives the same genesis. A genesis that passes validation is consistent: ids unique, pair and pool ids not above the counters, references resolved, denominations and batch ids matching their pair.",
 ["histories","inputs"],"every reachable state",
 "a dropped record kind is visible only if the state sampled has one",
 [K+"genesis.go","x/dex/module/genesis.go",T+"genesis.go",K+"store.go"],[("InitGenesis/ExportGenesis",K+"genesis.go"),("module genesis","x/dex/module/genesis.go"),("Validate",T+"genesis.go")])
p("C13","Parameters change only by the governance authority",
 "A parameter update takes effect only when its sender is exactly the authority the module was created with, and then stores exactly the parameters sent; any other sender is rejected and nothing changes.",
 ["inputs","configurations"],"every sender and configured authority",
 "the tests exercise one keeper configuration and never the refusal of every other sender",
 [K+"msg_server.go",K+"keeper.go"],[("UpdateParams",K+"msg_server.go"),("NewKeeper",K+"keeper.go"),("GetAuthority",K+"keeper.go")])
p("C14","The market-making order count is exact and its limit is enforced",
 "For each account and pair the stored count of market-making orders rises by one for each such order accepted and falls by one for each one finished, never for any other order type, and the record is removed when it reaches zero. An order that would take the count above the configured maximum is refused.",
 ["histories"],"every sequence of placing, completing, canceling and expiring orders of all types",
 "an off-by-one appears only after specific sequences across order types",
 [K+"swap.go",K+"store.go"],[("MMOrder",K+"swap.go"),("FinishOrder",K+"swap.go"),("NumMMOrders record",K+"store.go")],["market-making order count record"])
p("C15","Pairs and pools are created once, with fresh ids, fees paid and indices set",
 "Creating a pair or pool takes the next id, stores the record with all its lookup indices, and charges exactly the configured creation fee to the fee collector; a second pair with the same denominations in the same order is refused. A basic pool is refused while the pair has an active one or the active-pool limit is reached or a deposit is below the minimum, and on success exactly the deposit moves to the pool's reserve and the initial pool coin supply (at least the configured minimum) is minted to the creator.",
 ["histories","inputs"],"every history of creations and every message",
 "uniqueness and accounting must hold after any history of creations",
 [K+"pair.go",K+"pool.go"],[("CreatePair",K+"pair.go"),("CreatePool",K+"pool.go"),("CreateRangedPool",K+"pool.go"),("id counters",K+"pool.go")])
p("C16","Matching order is a strict priority and earlier batches go first",
 "Priority between two distinct orders is a strict order: never both ways, transitive, larger amount first, then users before pools, then lower id. Orders at one price are grouped by batch with earlier batches first and the current batch last, no order lost or duplicated, and a later batch receives anything only after the earlier ones are filled.",
 ["inputs"],"every set of orders",
 "ordering defects need particular ties",
 [T+"order.go","x/dex/amm/util.go","x/dex/amm/order.go"],[("HasPriority",T+"order.go"),("GroupOrdersByBatchId","x/dex/amm/util.go"),("SortOrders","x/dex/amm/util.go"),("DistributeOrderAmountToTick",M)])
p("C17","Creating a ranged pool takes at most what was offered",
 "Creating a ranged pool accepts at most the offered amount of each coin and at least one of them in full; at the bottom of the range it takes only base coin and at the top only quote coin. Price parameters outside the permitted bounds, inverted, too close together or with the initial price outside the range are refused.",
 ["inputs"],"every offered amount and price triple",
 "depends on rounding of chained square roots and quotients",
 ["x/dex/amm/pool.go"],[("CreateRangedPool","x/dex/amm/pool.go"),("ValidateRangedPoolParams","x/dex/amm/pool.go"),("CreateBasicPool","x/dex/amm/pool.go")])
p("C18","The order book keeps ticks sorted and order amounts summed correctly",
 "The order book holds buy ticks strictly descending and sell ticks strictly ascending by price, with each added matchable order in the tick of its own price exactly once. A view of the book answers, for any price, the exact total of the amounts at or beyond that price, and combined views answer the sum and the best prices of their parts.",
 ["inputs","histories"],"every sequence of added orders and every query price",
 "binary-search and prefix-sum boundaries over arbitrary insert orders",
 ["x/dex/amm/orderbook.go","x/dex/amm/view.go"],[("AddOrder/findPrice","x/dex/amm/orderbook.go"),("MakeView","x/dex/amm/view.go"),("BuyAmountOver/SellAmountUnder","x/dex/amm/view.go"),("MultipleOrderViews","x/dex/amm/view.go")])
p("C19","A bulk send moves exactly the coins that were queued",
 "Running a bulk send moves, for each sender and receiver, exactly the sum of the valid non-zero amounts queued from that sender to that receiver, merging repeated pairs without losing or duplicating any. An error from any transfer is reported to the caller.",
 ["inputs","fault_sequences"],"every sequence of queued transfers and every failing transfer",
 "merging errors need particular repetitions of sender and receiver",
 [T+"util.go"],[("QueueSendCoins",T+"util.go"),("Run",T+"util.go")])
p("C20","Expired orders end, finished records are removed, live ones are kept",
 "At the end of a batch every order past its expiry time is expired and refunded (one placed in this batch takes part in its matching first), and an order too small to match is expired; an expired, canceled or completed order is never put in the order book. Cleaning up at the start of a block deletes exactly the finished orders and requests with their indices and keeps every live one.",
 ["histories","schedules"],"every state, block time and status",
 "deleting a live order or keeping a dead one depends on the status and time combination",
 [K+"batch.go",K+"swap.go",T+"request.go","x/dex/module/abci.go"],[("ExecuteRequests",K+"batch.go"),("DeleteOutdatedRequests",K+"batch.go"),("ExecuteMatching",K+"swap.go"),("status predicates",T+"request.go"),("EndBlocker","x/dex/module/abci.go")])
p("C21","Messages that pass stateless validation are well formed",
 "A message accepted by stateless validation has a valid sender address, nonzero ids, positive amounts and prices within limits, a coin offer of the right denominations that covers the order, a known direction and a non-negative lifespan. Anything else is refused before it can reach state.",
 ["inputs"],"every message",
 "each refusal condition must hold for every value of every other field",
 [T+"msgs.go"],[("ValidateBasic of each message",T+"msgs.go")])
p("C22","Stored records read back as written and stay in their own slot",
 "Reading a pair, pool, request, order or counter returns the last value written for that id and nothing else; writing or deleting one leaves every other record unchanged. Deleting an order or request removes both the record and its owner index entry.",
 ["histories"],"every sequence of writes, deletes and reads",
 "cross-talk between records needs particular ids and kinds",
 [K+"store.go",T+"keys.go"],[("store accessors",K+"store.go")])
p("C23","Every node computes the same result for the same block",
 "Processing the same block on the same state gives byte-identical state, events and results on every node, independent of map iteration order, memory layout and time of day.",
 ["schedules","histories"],"every block and every node",
 "a single process running once cannot show two nodes diverging",
 ["x/dex/keeper","x/dex/amm"],[("DistributeOrderAmountToOrders iterates a map",M),("CancelAllOrders caches in maps",K+"swap.go")])
p("C24","End-of-block work always terminates in bounded time",
 "Generating pool orders, finding the match price and matching always finish, with work bounded by the number of orders and ticks in the price band.",
 ["inputs"],"every reachable state",
 "non-termination appears only for pool prices and ratios no test uses",
 ["x/dex/amm/pool.go","x/dex/amm/match.go"],[("PoolBuyOrders/PoolSellOrders loops","x/dex/amm/pool.go"),("FindMatchableAmountAtSinglePrice",M)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
