NA = []
RT = "carbon/routers/"
_t = "runtime monitoring: "

prop("P01", "Trades move exactly the reported amounts and nothing else",
 "After every executed trade the holdings of every order are its holdings before, minus what the trade report says it sold, plus what its linked order is reported to have bought (which also lifts that order's capacity when it is exceeded); no other order, pair or token moves. The per-order fills of a trade add up to its aggregate and to the amount the trader asked for, and name the tokens actually exchanged. No sequence of trades creates or destroys tokens.",
 "all histories of order creation, trades in either direction, by source or target, under every matching method, dry runs, refusals and deletions",
 "unit tests execute a handful of fixed trades and look at one or two numbers each; conservation must survive every history of trades over every book",
 [SIM, ORD, RT + "exact_router_x0y0n.py", RT + "fast_router.py", RT + "alpha_router.py"],
 [("order update on execution", ORD), ("execution of the routes and aggregation of the trade record", SIM)],
 ["trade result tables", "order book table"],
 _t + "shadow ledger replayed against holdings after each event of random trade histories", "The ledger is kept at 60 digits.")

prop("P02", "Every fill lies exactly on the order's bonding curve",
 "The amounts of every fill are those of an order whose marginal rate runs from its start price at full capacity to its end price when empty, integrated over the amount sold; the average rate of a fill is never better for the trader than the order's marginal rate before nor worse than its end price. The published trade price is quote over base of the amounts, and marginal prices published before and after the trade are those of the curve.",
 "all orders (full, partly used, narrow, fixed-price, extreme magnitudes, either token as base) and all trade sizes",
 "tests compare single numeric examples; curve invariance has to hold for every range, fill state, magnitude and amount",
 [ORD, SIM, RT + "exact_router_x0y0n.py", RT + "alpha_router.py", RT + "fast_router.py"],
 [("curve parameters and trade functions", ORD), ("per-order trade amounts", "carbon/routers/")],
 ["trade result tables", "order book table"],
 _t + "each observed fill compared with an independent high-precision bonding-curve integral", "Curve oracle: closed form at 60 digits.")

prop("P03", "Quotes are faithful and side-effect free",
 "A trade that is not executed (a dry run, a request that misses its limit or cannot be routed) and every read leave all orders and earlier trade records untouched. Executing a request right after quoting it delivers exactly the quoted amounts from the same orders, and is refused if the quote was refused. Quotes are logged as not executed, and a request that was refused is not logged at all.",
 "all books, requests and parameter combinations, any interleaving of quotes, reads, refusals and executions",
 "tests quote or execute, rarely both from one state, and never compare the whole state around a refused request",
 [SIM, ORD, RT + "exact_router_x0y0n.py", RT + "fast_router.py", RT + "alpha_router.py"],
 [("execution flag honoured only after all limits are checked", SIM)], ["order objects before/after", "trade log"],
 _t + "state snapshots around every quote, refusal and read, and quote/execute twins", "")

prop("P04", "Exact matching is globally optimal",
 "With exact matching no other split of the trade over the eligible orders gives the trader more for the same payment, or the same for less; the requested amount is delivered in full. After the trade all orders that were used and not drained show the same marginal rate, and unused orders show none better.",
 "all sets of eligible orders (overlapping, nested, disjoint, identical, fixed-price, partly used) and all amounts up to the total liquidity",
 "tests check specific splits for a few books; optimality quantifies over every alternative allocation of every book",
 [RT + "exact_router_x0y0n.py", SIM, ORD], [("selection of orders and common end price", RT + "exact_router_x0y0n.py")], ["trade result tables"],
 _t + "observed splits compared with an independent water-filling optimum and random alternative splits", "")

prop("P05", "Shortfalls are refused or filled partially on request; nothing is overdrawn",
 "A trade up to the total holdings of the eligible orders is accepted and filled completely, under each matching method. A larger one is refused, leaving everything unchanged, unless partial fills are allowed; then it delivers everything that is there at the cost of draining it and is flagged as partial. No order ever holds a negative amount.",
 "all books and requested amounts just below, at and far above the liquidity, by source and by target, with every matching method",
 "tests probe one or two oversized trades; the boundary depends on every combination of orders and fill states",
 [SIM, RT + "exact_router_x0y0n.py", RT + "fast_router.py", RT + "alpha_router.py", ORD], [("insufficient liquidity handling", RT), ("partial fills", SIM)], ["trade result", "order book table"],
 _t + "boundary workloads with accept/refuse/partial oracle and non-negativity watch on all holdings", "")

prop("P06", "Limit prices and limit amounts are never violated",
 "A trade with a limit price or limit amount is executed only if what the whole trade achieves is at least as good as the limit, and is executed with unchanged amounts if it is. Otherwise nothing moves, and every record of it is flagged as not executed because of the limit. The limit price is read in the convention of the pair named in the request, for purchases and sales alike.",
 "all books, amounts, verbs, matching methods, pair orientations, and limits on either side of and exactly at the achievable price",
 "tests check a few limits; the verdict depends on direction, verb, pair orientation and rounding near equality",
 [SIM, "carbon/pair.py"], [("limit checks", SIM), ("limit_is_met", "carbon/pair.py")], ["trade result tables", "order holdings"],
 _t + "limits placed around the quoted price; flags and holdings monitored", "")

prop("P07", "Only eligible orders are ever matched",
 "A trade only uses orders of the very token pair requested that sell the token the trader receives, are enabled and not empty, and are in the caller's list of admissible orders if one is given; any other order is neither changed nor able to influence the result. If no order qualifies the trade is refused. Tokens are identified by their names, whatever these look like when joined, and the two quotations of a pair are the same market.",
 "all books over several pairs including both quotations of a pair, deleted, disabled and empty orders and ambiguous names",
 "tests use one or two pairs with unmistakable names",
 [SIM, "carbon/pair.py"], [("selection of orders for a trade", SIM)], ["trade result tables", "order holdings"],
 _t + "fills cross-checked against an independent eligibility rule; twin books with and without ineligible orders", "")

prop("P08", "A trader cannot extract value by splitting, repeating or reversing trades",
 "On a book whose sell prices are all above its buy prices, no sequence of trades increases the trader's wealth valued at any price in between. Splitting a trade into parts gives, with exact matching, the same total and leaves the book in the same state, and a larger trade never gets a better average price.",
 "all uncrossed books and all trade sequences in both directions; all ways to split a trade",
 "round trips and splits are multi-step histories that unit tests do not generate",
 [SIM, ORD, RT + "exact_router_x0y0n.py", RT + "fast_router.py", RT + "alpha_router.py"], [("linked orders credited with proceeds at their own capacity", ORD)], ["trade result tables", "order book table"],
 _t + "adversarial trader with wealth monitor; metamorphic split/merge comparison", "")

prop("P09", "The order book reflects exactly the orders that were created and not deleted",
 "Creating a strategy adds two mutually linked orders (a single order: one) with fresh ids, and the book shows exactly the given token, pair, holdings, capacity, price range and filling level in the convention of the given pair. Invalid requests (capacity below the holdings, two contradictory filling levels, half a price range, zero prices, foreign tokens, no pair) are refused and leave no trace. Deleting an order by id removes it and its linked order and nothing else; unknown ids remove nothing.",
 "all sequences of valid and invalid creations and deletions",
 "tests create well-formed strategies and rarely look at the book after a failed call",
 [SIM, ORD, "carbon/pair.py"], [("add_strategy, add_order, delete_strategy", SIM)], ["order book table", "returned order tables"],
 _t + "model-based comparison of the published order table after every step", "")

prop("P10", "Quotation conventions never change the economics",
 "The same economic history told in different conventions (pair reversed with inverted prices, strategy described from either token, trader or AMM verbs with either sign, implicit or explicit pair, letter case, number types) yields the same holdings and the same fills, with prices differing only by the convention requested.",
 "all books and trade histories and all combinations of conventions",
 "tests fix one convention each; agreement between conventions is a relation between runs",
 [SIM, "carbon/pair.py", ORD], [("conversion of prices and amounts", "carbon/pair.py"), ("trader/AMM entry points", SIM)], ["trade result tables", "order book table"],
 _t + "metamorphic twin runs compared event by event", "")

prop("P11", "Trade log and liquidity views reproduce the state",
 "Replaying the executed trades of the published log over the initial holdings gives the published order book, and the log contains every accepted request exactly once, in order, as returned to the caller, with its execution, limit and partial-fill status. The published liquidity equals the sum of the holdings of the orders per pair and token, and its filters return exactly the matching rows.",
 "all histories of creations, deletions, executed, quoted, limit-missed and refused trades over several pairs",
 "tests inspect a few entries of the log; agreement with the state is a property of whole histories",
 [SIM], [("trade log and state", SIM), ("liquidity", SIM)], ["state tables", "liquidity tables"],
 _t + "offline checker replays the recorded event log against published state", "One pinned defect (partial flag of by-target trades) is a known finding.")

prop("P12", "Fast and alpha matching obey their rules and never beat exact matching",
 "Fast matching uses the orders in the sequence of the price they give for the request, each to exhaustion before the next; alpha matching uses at most the given number of orders, is optimal over the orders it uses and equals exact matching if the number admits all, and refuses only what those orders cannot fill. Both deliver the requested amount with all fills on the curve, and never give the trader more than exact matching would.",
 "all books, amounts and thresholds",
 "tests compare single examples with stored numbers",
 [RT + "fast_router.py", RT + "alpha_router.py", SIM], [("order selection", RT)], ["trade result tables"],
 _t + "reference greedy matcher and exact optimum as online oracles", "Ties are not judged.")

OUI = "carbon/carbon_order_ui.py"
prop("P13", "The curve interface describes the bonding curve consistently",
 "The curve functions of CarbonOrderUI (marginal and effective price, the swap functions both ways, the invariant, the inverse of the price, the approximate liquidity share, the goal seek) agree with the bonding curve and with each other for every curve and fill state. Every constructor (from prices, widths, orders, strategies, curve parameters, either quotation) yields the curve it was given. Outside of a curve's range the functions answer None or, when asked to, raise the documented error.",
 "all curves (buy and sell, wide, narrow, fixed price, empty to full), all quotations and all arguments inside and outside of the range",
 "tests evaluate single curves at single points; mutual inverses and agreement across constructors are relations over all of them",
 [OUI], [("curve functions and constructors", OUI)], ["return values of the curve functions"],
 _t + "every return value checked against a high-precision bonding curve and against the inverse function", "")

prop("P14", "Trades on curve objects conserve tokens and quotes stay quotes",
 "Selling, buying, trading to a target price and adding liquidity on CarbonOrderUI curves change the curve and its linked curve by exactly the amounts reported, on the bonding curve. Dry runs and refused trades leave all curves as they were, and a quote equals the execution that follows. Trading to a target price ends at that price, or at the nearest end of the curve, does nothing when repeated, and never loses value for a pair of uncrossed curves at the target price.",
 "all linked and unlinked curves and all sequences of sales, purchases, price targets and deposits",
 "tests run a few fixed sequences on a few curves",
 [OUI], [("selly, buyx, tradeto, addliqy", OUI)], ["trade reports", "curve holdings"],
 _t + "ledger and curve oracle attached to every call of random trade sequences; quote/execute twins", "")

RS = "carbon/helpers/simulation.py"
prop("P15", "A price-path simulation is the sum of its arbitrage trades",
 "Every step of run_sim leaves each strategy in the state an arbitrageur moving both curves to the current price produces, and the reported holdings, values, and buy-and-hold values follow from these states. Results do not depend on inserting intermediate points of the same move, on units, on time labels or on which other strategies are simulated alongside. On a constant path nothing happens, and no step reduces a strategy's value at the new price.",
 "all strategies and price paths, with fees and shifts",
 "tests look at sample outputs for two or three paths",
 [RS, "carbon/helpers/strategym.py", OUI], [("simulation loop", RS)], ["simulation result"],
 _t + "every simulated step compared with an independent reference simulation; metamorphic path refinement and scaling", "")

CPC = "carbon/tools/cpc.py"
SP = "carbon/tools/simplepair.py"
prop("P17", "Token pairs convert amounts and prices consistently",
 "Converting an amount or a price between the two tokens of a pair uses the stated price convention, and is undone by converting back and unchanged when expressed in the reversed pair. A limit price is met exactly if the trade is no worse than the limit for the side stated, and the names, decimals, normalised (primary) direction and primary price of a pair are the same whichever constructor or order of its tokens was used. Malformed or ambiguous pairs are refused, and questions about foreign tokens answer None or False.",
 "all token names (including names contained in each other), both directions, all amounts, prices and decimals",
 "tests use one or two fixed pairs; conversions must be inverse to each other for all names and numbers",
 ["carbon/pair.py", SP], [("CarbonPair", "carbon/pair.py"), ("SimplePair", SP)], ["return values of the pair classes"],
 _t + "round-trip and reversal oracles on every conversion over generated pairs", "")

prop("P18", "A constant product curve is what its constructor was given",
 "Whatever constructor made it (k, x, y, p combinations, price range, uniswap v2 or v3 pool, carbon order in either quotation), a ConstantProductCurve publishes the virtual and real holdings, price, price range, holding bounds, boundary flags and total value locked that follow from its inputs. It keeps its pair, id, fee, description, constructor type and parameters, cannot be altered, and survives a round trip through its dictionary form. Inconsistent or missing arguments are refused.",
 "all constructors, pairs, magnitudes, widths and fill states",
 "tests build few curves with round numbers; the relations among published quantities must hold for all of them",
 [CPC, SP], [("ConstantProductCurve constructors and properties", CPC)], ["attributes of the curve objects"],
 _t + "published attributes compared with an independent 50-digit description of the curve", "")

prop("P19", "Swaps on a constant product curve keep its invariant and its bounds",
 "A trade executed on a ConstantProductCurve by either leg keeps k, moves the real holdings by the traded amounts, is refused if it would pay out more than the curve holds, and leaves the original curve unchanged; trades in parts, by the other leg and back agree. The swap and price functions are inverse to each other, agree with executed trades, give None out of range and stop at the ends of the range. The inverted view of a curve answers as a curve built for the reversed pair would.",
 "all curves, trade sequences, amounts inside, at and beyond the range, and prices",
 "tests trade single curves with single amounts; inverses and bounds have to hold for all",
 [CPC], [("execute, dyfromdx_f, xyfromp_f and siblings", CPC), ("CPCInverter", CPC)], ["curve objects before and after a trade", "return values of the swap functions"],
 _t + "swap sequences replayed against the invariant at 50 digits, with split, reverse and mirror twins", "")

prop("P20", "Containers of curves answer queries like the list of their curves",
 "A CPCContainer holds exactly the curves given to it, in order, however they were added, and refuses curves with the id of one it holds. Its selections (by id, pair, tokens, parameters, index), token and pair sets, groupings, statistics, token tables, price estimates and serialised forms are those of the plain list of curves, whatever was asked before. Queries change nothing, and a container restored from its dictionary or dataframe form holds equal curves.",
 "all containers (empty, many curves per pair, both directions), all ways to fill them and all sequences of queries and additions",
 "tests use one or two fixed containers; agreement with the list must hold for each content and after every sequence of queries and additions",
 [CPC, SP, "carbon/tools/tokenscale.py"], [("CPCContainer", CPC), ("token scales", "carbon/tools/tokenscale.py")], ["return values of the container methods"],
 _t + "each answer compared online with a list model of the container; snapshots around queries", "Two curves less than 1e-6 from a bound do not count in price estimates.")

OPTI = "carbon/tools/optimizer.py"
prop("P22", "Arbitrage optimizers return optimal self-financing trades",
 "A result that is not an error assigns every curve a trade on its curve and within its bounds, at a common marginal price of its tokens unless the curve stopped at an end of its range, and the trades net to zero in every token but the target: this is optimal. The reported result, totals, prices and formats belong to those trades, and executing them leaves nothing more to be gained. Solvable problems of ordinary curves are solved, infeasible ones give an error result, and the curves are never changed.",
 "all token graphs, kinds of curves, prices, target tokens and starting prices",
 "tests solve some fixed markets and compare with stored numbers; optimality and self-financing are certificates that have to hold for all",
 [OPTI, CPC], [("margp_optimizer, simple_optimizer, convex_optimizer", OPTI)], ["optimizer results", "curves before and after"],
 _t + "optimality certificate (common price, on-curve, net zero) checked on each result; idempotence, scaling, relabelling twins", "Convex: ECOS solver, unlevered curves.")

prop("P24", "Trade instructions state the trades of an optimizer result",
 "The trade instructions of an optimizer result name, in order, every curve that trades, with the token paid in and the token paid out and exactly the amounts of the result. Their prices lie between the curve's marginal prices before and after, and every format shows the same instructions, with totals that are the sums of the columns. Instructions in which both amounts have the same sign are refused, rounding noise of curves that do not trade is not.",
 "all results of the three optimizers on all markets and magnitudes, and all directly made instructions",
 "tests look at the instructions of a few results",
 [OPTI], [("TradeInstruction and trade_instructions", OPTI)], ["instruction objects and tables"],
 _t + "each format compared with the result's trades; sign, price and sum invariants", "")

STR = "carbon/helpers/strategym.py"
prop("P30", "Strategy descriptions mean the ranges they were made from",
 "Every strategy constructor (plain, sell/buy ranges in any order, mid/gap/width/utilisation, uniswap-like, dictionary record) yields the ordered price ranges, marginal prices, capacities and holdings that its parameters define, and invalid parameters are refused. Rescaling multiplies all prices, and nothing else, of rescaleable strategies only; funding gives unfunded strategies the stated value; both leave the original unchanged. Put into a simulator, a strategy creates the two linked orders it describes; comparing scenario records reports exactly the differing fields.",
 "all parameters of all constructors over many magnitudes, and all record sets",
 "tests build a handful of strategies with round numbers",
 [STR, SIM], [("strategy", STR)], ["strategy objects", "order rows created from them"],
 _t + "closed-form expectations for each constructor, snapshots around each operation, orders created in the real simulator", "")

prop("P31", "Random price paths have the stated law and interpolation keeps the data",
 "Generated paths start at the stated price and date, have the stated number of steps and spacing, stay positive, differ from each other, and their log increments are independent normals with the stated drift and volatility; dataframes label and index them accordingly. Interpolating a series keeps every observed point, adds evenly spaced points at the requested density and noise of the requested volatility, and never changes its input. Volatility estimates are those of the series.",
 "all generator parameters, series (regular and irregular) and sampling periods",
 "tests generate one path of each kind, if any",
 ["carbon/helpers/pathgenerator.py", "carbon/helpers/pathinterpolation.py"], [("PathGenerator", "carbon/helpers/pathgenerator.py"), ("PathInterpolation", "carbon/helpers/pathinterpolation.py")], ["paths, dataframes and series"],
 _t + "structural monitors on every path and statistical monitors (8 sigma) on increments", "The generator cannot be seeded: values differ from run to run, verdicts do not.")

BT = "benchmark/core/trade/"
prop("P27", "Integer contract arithmetic rounds against the trader and stays accurate",
 "Trades by source amount of an encoded order never pay out more, and trades by target amount never cost less, than exact arithmetic on that order, for all magnitudes; in the ordinary range they are within two units and 1e-8 of it, increase with the amount, and agree with the real-number specification of the order and with the simulator. Requests that overflow or overdraw are refused (0 or the largest number). Encoding an order keeps its liquidity and its rates to 48 bits, never improving a range, and decoding inverts it.",
 "all encoded orders (1 to 2^127 units, single-price to very wide, any fill) and all amounts",
 "the benchmark compares a list of stored trades with a tolerance; rounding direction and accuracy have to hold for every integer",
 [BT + "impl.py", BT + "spec.py", "benchmark/core/__init__.py"], [("contract arithmetic", BT + "impl.py"), ("specification", BT + "spec.py")], ["amounts returned by the trade functions", "encoded and decoded orders"],
 _t + "each returned integer compared with exact rational arithmetic, and across implementations (integer, specification, simulator)", "")

BM = "benchmark/core/match/impl.py"
prop("P28", "Order matching on integer orders is exact, bounded and optimal",
 "Every matched action is what its order really trades for that input, uses each order once and within its liquidity, and the inputs never exceed the request and reach it if the book can fill it. Best matching gives the trader the best total possible on these orders up to rounding and is never worse than fast matching; fast matching exhausts orders in the sequence of the rate they give for the whole amount. Type and filter arguments select exactly the stated results and the orders are not changed.",
 "all books, amounts, both directions, all types and filters",
 "the benchmark checks four stored books",
 [BM, BT + "impl.py"], [("matchBest, matchFast, rates and limits", BM)], ["matched actions"],
 _t + "each action recomputed on its order; totals compared with an exact water-filling optimum and a reference greedy", "")
AG = "carbon/tools/arbgraphs.py"
prop("P25", "Trade graphs conserve tokens and capacity under every history of transports",
 "A recorded transport takes exactly its amount from the source node and from the remaining capacities of the edges between the two tokens (pro rata), and adds the amount times each edge's rate to the target node; amounts beyond capacity or balance are refused and change nothing, and unrecorded transports change nothing. Statistics, filters and dataframes report exactly the edges, amounts and remaining capacities of the graph; resetting restores them; a duplicate is an independent graph with the same edges (or, consolidated, their sums). Amounts and edges combine only with like ones, and tracked values keep their full history.",
 "all histories of additions, transports (recorded or not, over edges or the graph), refusals, duplications and resets",
 "tests transport a handful of round numbers over one pair",
 [AG], [("ArbGraph", AG), ("Edge.transport", AG)], ["node balances and histories, edge capacities, returned results"],
 _t + "a ledger model is updated alongside each operation and compared with the whole graph state after it", "")

prop("P26", "Cycles, arbitrage and prices of a trade graph are those its edges imply",
 "The cycles of a graph are exactly its elementary cycles, each once; running one from any of its tokens reports the largest amount that fits through every leg, what comes out, and the resulting profit, in every output format, without changing the graph. Prices, price tables and paths follow a shortest path with the mean price of each leg, so that arbitrage-free edges reproduce the prices they were made from; matrices, degrees and edge tables describe the same graph. Graphs made from curves or from trade vectors contain exactly those connections and trades.",
 "all graphs of up to six tokens (sparse to complete, parallel, one-way, disconnected), tokens, formats, curves and trade vectors",
 "tests look at four hand-made graphs",
 [AG], [("run_arbitrage_cycle", AG), ("cycles", AG), ("price", AG)], ["cycles, results, prices, tables and matrices of a graph"],
 _t + "exhaustive search over the edges gives the cycles and paths; closed forms give amounts and prices", "")

AL = "carbon/simulators/sim_analytics.py"
prop("P29", "Analytics report what trading on the simulator would cost",
 "Effective prices and amounts quoted by the analytics object for any size and side are those of the optimal trade on the simulator it was given, with the documented failure value when the book cannot fill the size, and quoting never changes an order. An order book made from amounts keeps aligned pairs only, its cumulative and marginal prices, liquidity, units and dataframes follow from those pairs, and the approximate book made over a price grid reproduces the curves that are in it. Wrong sides, pairs and missing arguments are refused.",
 "all books, sizes, sides, argument styles and all series of amounts with missing values anywhere",
 "tests quote a few sizes on one book",
 [AL], [("Analytics", AL), ("OrderBook", AL)], ["quotes, order books and dataframes", "orders before and after"],
 _t + "quotes compared with an exact optimal fill of the shadow book; closed-form checks on each order book", "")

ENC = "carbon/sdk/carbonsdk.py"
prop("P16", "Orders keep their meaning when encoded for the contract and the SDK",
 "The integers that represent an order for the contract decode to the same token amounts and price range to 46 bits, never to a better price for the trader, whichever of the SDK classes, order objects or contract code encodes them; trades on the encoded order are those of the original. Strategy records from the SDK, in any number format, address case and token order, and including empty orders, become the two orders they describe, raw records are reproduced unchanged. Rates, amounts or tokens that cannot be represented are refused.",
 "all orders, prices over 24 orders of magnitude, tokens of 2 to 18 decimals, fills and strategy records",
 "tests encode a few orders and compare a few numbers of one record",
 [ENC, "carbon/carbon_order_ui.py"], [("EncodedOrder and EncodedStrategy", ENC), ("yzABS, from_SDK, linked orders", "carbon/carbon_order_ui.py")], ["encoded integers, decoded orders, orders made from records"],
 _t + "each encoding decoded with exact rational arithmetic and compared across implementations", "")

prop("P33", "Float-integers keep their significant bits and never exceed their maximum",
 "A number stored as significand and exponent is the given integer truncated to its significant bits, so that it is never larger and differs by less than one unit of the last bit kept; storing it again changes nothing. Conversions to and from floats and scaled integers follow the same rule. Numbers that are negative or beyond the stated maximum are refused.",
 "all integers up to and beyond the maximum, all numbers of significant bits and exponents",
 "tests store a handful of numbers",
 ["carbon/helpers/floatint.py"], [("CarbonFloatInt", "carbon/helpers/floatint.py")], ["stored significand and exponent, converted values"],
 _t + "each stored number compared with exact integer arithmetic", "", over=("inputs",))

prop("P34", "SDK calls transmit what was asked and return what was answered",
 "Each method of the SDK client sends exactly one request, to the configured server and with its token, whose parameters are those given; it returns what the server answered, and any failure (refusal, error status, garbage, cut-off or dropped connection) surfaces as the documented error, never as a value. Asynchronous results are those of their own request and appear once they are there. Market data, trades and strategies in terms of token names translate tickers, sides and price directions consistently, refuse impossible requests before sending, and leave their arguments unchanged.",
 "all methods, arguments, client configurations, server faults and histories of asynchronous requests",
 "tests need a live server and look at a few methods only",
 ["carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/carbonsdk.py", "carbon/sdk/sdktoken.py"], [("request and error handling", "carbon/sdk/sdkbase.py"), ("endpoints", "carbon/sdk/carbonsdk0.py"), ("market view", "carbon/sdk/carbonsdk.py")], ["requests on the wire", "returned values and exceptions"],
 _t + "a fault-injecting server on loopback records every request; answers are compared with an independent model", "", over=("inputs", "histories", "fault_sequences"))

SRV = "resources/sdk/server/"
prop("P36", "The SDK server answers every request with the result of its own SDK call",
 "A request with the right token makes exactly the SDK calls of its endpoint, with the arguments given and addresses normalised, and returns their values, or the reason if one of them fails; without the token it is refused and reaches nothing. An asynchronous request gets an identifier of its own under which exactly its own result appears once, and only once, the SDK call has settled; unknown identifiers are reported as such. Whatever the request or the failure of the SDK, a token contract or the missing wallet, the server keeps answering.",
 "all endpoints, arguments, tokens, SDK failures, orders in which SDK calls settle, and concurrent requests within one clock tick",
 "there are no tests of the server",
 [SRV + "sdkserver.mjs", SRV + "sdkserver_dispatch.mjs"], [("routes and asynchronous results", SRV + "sdkserver.mjs"), ("dispatch to the SDK", SRV + "sdkserver_dispatch.mjs")], ["HTTP answers", "calls that reach the (stand-in) SDK"],
 _t + "the real server runs under node against a recording stand-in SDK with delayed, failing and reordered settlement; each history is checked against a model", "The npm packages are not installed: express, body-parser, ethers and the SDK are stand-ins.", over=("inputs", "histories", "fault_sequences", "schedules"))

U3F = "carbon/tools/univ3calc.py"
prop("P32", "Uniswap v3 pool records become the pool they describe",
 "From the tick, square root price, liquidity and fee of a pool the calculator derives the price range, prices, real and virtual reserves and total value of exactly that position, scaled by the decimals of both tokens and in either quotation, and the curve made from it has the same price, range and reserves. Numbers given as text or in hexadecimal mean the same, and records read back the same pool. Unknown fees and tokens are refused.",
 "all ticks, prices within the tick range, liquidities, decimals and fee levels",
 "tests look at two mainnet pools",
 [U3F], [("Univ3Calculator", U3F)], ["prices, ranges, reserves and curve derived from a pool record"],
 _t + "each derived quantity compared with 70-digit tick arithmetic", "", over=("inputs",))

prop("P35", "Shared numbers, parameters, versions and token scales follow their rules",
 "A shared number behaves in every operation as the number it holds, every reference sees an in-place change, and results of operations share nothing with their operands. A parameter set returns what was set, else its default (the first one declared), copies are independent, and nothing else appears in it. Version requirements, tolerant comparison, uint256 assertions and token scales give the verdict that follows from the numbers alone.",
 "all histories of operations and of settings, all version pairs, and numbers around every threshold",
 "tests try single operations",
 ["carbon/helpers/sharedvar.py", "carbon/tools/params.py", "carbon/helpers/version.py", "carbon/helpers/stdimports.py", "carbon/helpers/soltest.py", "carbon/tools/tokenscale.py"],
 [("SharedVar", "carbon/helpers/sharedvar.py"), ("Params", "carbon/tools/params.py"), ("require_version", "carbon/helpers/version.py"), ("SolTestBase", "carbon/helpers/soltest.py")], ["values of shared numbers and parameters, verdicts"],
 _t + "plain numbers and dicts run alongside every history and are compared after each step", "")

CCF = "carbon/helpers/cryptocompare.py"
prop("P37", "Files, price series and market data queries deliver what was stored or served",
 "What is saved is read back unchanged in every format, and reading a price series returns exactly the rows of the requested window and column (inverted if asked) and never alters the file. A market data query sends exactly one request with the given parameters and returns the data served, as tables with every value under its pair, field and time; a failed query raises or returns None as configured. Cached items are returned without a query, and are fetched, stored or refused as the flags say.",
 "all contents, formats, windows, columns, queries, server failures and cache histories",
 "tests read one file; the market data client has no tests",
 ["carbon/helpers/fls.py", "carbon/helpers/pdread.py", "carbon/helpers/helpers.py", "carbon/helpers/simulation.py", CCF],
 [("fsave, fload", "carbon/helpers/fls.py"), ("pdread", "carbon/helpers/pdread.py"), ("CryptoCompare", CCF), ("StartConditions", "carbon/helpers/simulation.py")], ["files on disk, returned frames, requests on the wire, cache files"],
 _t + "bytes, rows, requests and cache states compared with an independent model; the service is a fault-injecting loopback server", "", over=("inputs", "histories", "fault_sequences"))

prop("P38", "Notebook controls report exactly what the user has selected",
 "After any sequence of front-end events the checkbox, slider and dropdown managers report the values, ids, labels and objects of exactly the present selection, in the order of the choices, starting from the given initial values, and other managers are not affected. Sliders keep to their range. Constructions with mismatched lengths, contradictory or impossible defaults are refused.",
 "all forms of construction and all sequences of events",
 "there are no tests of the controls",
 ["carbon/helpers/widgets.py"], [("CheckboxManager, PcSliderManager, DropdownManager", "carbon/helpers/widgets.py")], ["values reported by the managers"],
 _t + "simulated front-end events on the real widgets, compared with a model after each", "Displaying needs a notebook and is not exercised.")

prop("P39", "Charts draw the numbers they are given",
 "Every chart contains exactly the lines, markers and shaded ranges that its data and parameters call for, with the given values, the bid and ask sides in their own colours and legends, and axes named after the right tokens. Switching one element off leaves the others as they were. Drawing changes neither the data nor the default parameters.",
 "all order books, simulations, curve containers, graphs, paths and combinations of plot parameters",
 "tests do not look at what is drawn",
 [AL, "carbon/helpers/simulation.py", "carbon/tools/cpc.py", "carbon/tools/arbgraphs.py", "carbon/helpers/pathgenerator.py"],
 [("plot_sim", "carbon/helpers/simulation.py"), ("CPCContainer.plot", "carbon/tools/cpc.py"), ("OrderBook charts", AL), ("ArbGraph.plot", "carbon/tools/arbgraphs.py")], ["artists on the matplotlib canvas"],
 _t + "everything drawn is read back from the canvas and compared with the input data", "", over=("inputs", "configurations"))

prop("P40", "Orders and routers agree with the curve when used on their own",
 "An order means the same curve whichever way it is constructed. Exact, alpha and fast routers used directly, on any book and after any earlier use, return fills that lie on the curves of distinct allowed orders, add up to the amount and are optimal over the orders they may use (fast: follow the best-quote-first rule); shortfalls are refused or, on request, filled as far as possible; orders are never changed, and in integer arithmetic every rounding is against the trader and by less than it must be. The order selector takes no more orders than allowed and enough whenever that is possible; running totals and order files hold the numbers of the orders.",
 "all orders and scales, books, amounts, subsets, limits, router parameters and histories of one router object",
 "tests use the routers only through the simulator, with round orders",
 ["carbon/order.py", "carbon/routers/base_router.py", "carbon/routers/exact_base_router.py", "carbon/routers/exact_router_x0y0n.py", "carbon/routers/fast_router.py", "carbon/routers/alpha_router.py"],
 [("Order", "carbon/order.py"), ("match", "carbon/routers/exact_base_router.py"), ("match", "carbon/routers/fast_router.py"), ("gen_one_order_selector", "carbon/routers/alpha_router.py"), ("make_orders_from_file", "carbon/routers/base_router.py")], ["actions returned, orders before and after"],
 _t + "fills compared with curves integrated at 60 digits, a water-filling optimum, a greedy reference and exact rational rounding", "Reading orders from csv files is not covered.", over=("inputs", "histories", "configurations"))

WP = "resources/whitepaper/"
prop("P41", "The formula library of the whitepaper describes the curves that are traded",
 "Every equation of the library holds on every order curve, with its prices, intercepts and swaps as the simulator computes them, relates just the quantities it names and is solved for the one it names (the right root). The formula container, its namespaces, aliases, tags and text filter deliver exactly what was put in, missing keys raise or return nothing as asked, and equation arithmetic does the same to both sides.",
 "all curves, positions and swaps; all histories of containers; all equations and operands",
 "there are no tests of the library",
 [WP + "CarbonCalculations.py", WP + "formulalib.py", WP + "taglib.py", WP + "sympyx.py", "carbon/carbon_order_ui.py"],
 [("FORMULAS", WP + "CarbonCalculations.py"), ("Formulas", WP + "formulalib.py"), ("Tags", WP + "taglib.py"), ("XEq, subs", WP + "sympyx.py")], ["equations, values returned by containers"],
 _t + "equations evaluated at 60 digits on independently integrated curves and with the numbers of the order objects; containers compared with a model", "Runs the library with the SymPy of the verification tooling.", over=("inputs", "histories"))
