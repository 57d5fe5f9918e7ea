from decimal import Decimal as D
from vlib.simlib import *

PID = "P07"
RULE = ("books over several pairs (including both quotations of one pair, disabled and empty orders, deleted orders, and token names that "
        "concatenate ambiguously) traded with random order filters, signs and pair orientations; distinct by event list; "
        "non-trivial if some order in the book was ineligible and a trade was routed")
ASSUME = ["which eligible orders are used is decided by the matching properties; here only that no ineligible one is"]
REQUIRED = ["eligible", "untouched", "none-eligible", "filter-neutral"]

NAMES = [("ETHW", "ETH"), ("ETH", "WETH"), ("ETH", "USDC"), ("USDC", "ETH"), ("WBTC", "USDC"), ("A", "BC"), ("AB", "C")]


def order_on(w, pair, rng, tkn=None):
    base, quote = pair
    tkn = tkn or rng.choice(pair)
    m = 10.0
    above = tkn == base
    a = m * (1 + rng.uniform(0.001, 0.2)) if above else m / (1 + rng.uniform(0.001, 0.2))
    b = a * 1.5 if above else a / 1.5
    if (base, quote) == ("USDC", "ETH"):      # same market as ETH/USDC, other quotation
        a, b = 1 / a, 1 / b
        above = tkn == base
        if above and b < a or (not above and b > a):
            a, b = b, a
    k = rng.random()
    amt = float("%.4g" % rng.uniform(5, 50))
    if k < 0.15:
        amt = 0
    if k < 0.25:
        return w.add_strategy(tkn, amt, a, b, base=base, quote=quote, single=True)
    c = m * 0.98 if above else m * 1.02
    if (base, quote) == ("USDC", "ETH"): c = 1 / c
    d = c / 1.5 if above else c * 1.5
    return w.add_strategy(tkn, amt, a, b, rng.choice([0, 10, 100]), c, d, base=base, quote=quote)


def trade_and_check(ctx, w, pair, rng, mm):
    base, quote = pair
    out = rng.choice(pair); inn = quote if out == base else base
    use = None
    if rng.random() < 0.5 and w.model:
        ids = sorted(w.model)
        use = rng.sample(ids, rng.randint(0, len(ids)))
        if rng.random() < 0.3: use = use + [4711]
        if rng.random() < 0.3 and use: use = use + [use[0]]
    elig = w.eligible(out, base, quote, use)
    bt = rng.random() < 0.5
    kw = {}
    if use is not None: kw["use_positions"] = list(use)
    if mm == "alpha": kw["threshold_orders"] = 100
    if rng.random() < 0.3: kw["pair"] = f"{quote}/{base}"
    neg = rng.random() < 0.25
    pre = w.snapshot()
    if not elig:
        amt = 1
        r = w.trade(bt != neg, out if bt else inn, -amt if neg else amt, base, quote, **kw)
        ctx.check("none-eligible", not r["success"], "traded-without-eligible-order", f"{r}")
        ctx.check("none-eligible", w.snapshot() == pre, "book-moved", "")
        return False
    tot = float(sum(o.y if bt else o.dx_of_dy(o.y) for o in elig))
    if tot < 1e-4 or min(float(o.y) for o in elig) < 1e-6:
        return False
    amt = float("%.6g" % (tot * rng.choice([0.01, 0.2, 0.7, 0.95])))
    r = w.trade(bt != neg, out if bt else inn, -amt if neg else amt, base, quote, **kw)
    if not r["success"]:
        ctx.check("eligible", w.snapshot() == pre, "book-moved", "")
        ctx.fail("eligible-orders-not-used", f"{amt} of {tot} on eligible orders {[o.id for o in elig]} refused: {r['error']}")
    rt, ag = w.routes(r)
    ok = {o.id for o in elig}
    ids = [int(x["routeix"]) for x in rt]
    ctx.check("eligible", len(ids) == len(set(ids)), "order-twice", f"{ids}")
    for i in ids:
        why = "unknown" if i not in w.model else "disabled" if w.model[i].disabled else "wrong token" if w.model[i].tkn != out else \
            "wrong pair" if {w.model[i].base, w.model[i].quote} != set(pair) else "empty" if w.model[i].y <= 0 else \
            "filtered" if use is not None and i not in use else "?"
        ctx.check("eligible", i in ok, "ineligible-order:" + why, f"trade of {out} on {pair} with filter {use} used order {i}: {why}")
    ctx.check("eligible", {"routeix": str(ids)}["routeix"] == str(ag[0]["routeix"]), "route-list", f"{ag[0]['routeix']} vs {ids}")
    w.apply(r)
    post = w.snapshot()
    touched = set(ids) | {w.model[i].lid for i in ids}
    for i in pre:
        if i not in touched:
            ctx.check("untouched", post.get(i) == pre[i], "untouched-order-moved", f"order {i}: {pre[i]} -> {post.get(i)}")
    w.compare("untouched", "book")
    w.sync()
    ctx.cover(mm, "use" if use is not None else "all", "neg" if neg else "", "elig%d" % min(4, len(elig)), "of%d" % min(12, len(w.model)))
    return True


def case(mm):
    def run(ctx):
        rng = ctx.rng
        w = World(ctx, mm, exclude_future=rng.random() < 0.5); w.watch_inputs = True
        names = rng.sample(NAMES, rng.randint(2, 4)) if rng.random() < 0.6 else NAMES[:2] + NAMES[2:4]
        lo, hi = 3, 8
        if rng.random() < 0.2: names, lo, hi = [("ETH", "USDC"), ("USDC", "ETH")], 7, 12     # one market, both quotations
        for _ in range(crowd(rng, lo, hi)):
            order_on(w, rng.choice(names), rng)
        if rng.random() < 0.4:
            i = rng.choice(sorted(w.model))
            w.sim.delete_order(i)
            ctx.log("delete", i)
            l = w.model[i].lid
            w.model.pop(i, None); w.model.pop(l, None)
        n = 0
        for _ in range(rng.randint(3, 6)):
            n += trade_and_check(ctx, w, rng.choice(names), rng, mm)
        ctx.run(ctx.trail, n > 0)
        ctx.sample(ctx.trail[:8])
    return run


def neutral(ctx):
    """naming all eligible orders, or additionally ineligible ones, is the same as naming none"""
    rng = ctx.rng
    mm = rng.choice(["exact", "fast", "alpha"])
    w = World(ctx, mm)
    pairs = [rng.choice(PAIRS[:2])]
    for _ in range(rng.randint(2, 5)):
        w.random_strategy(pairs=pairs)
    tr = random_trade(ctx, w, pairs)
    if not tr: ctx.skip()
    kw = dict(threshold_orders=100) if mm == "alpha" else {}
    elig = [o.id for o in w.eligible(tr["out"], tr["base"], tr["quote"])]
    res = []
    for use in (None, elig, sorted(w.model), sorted(w.model)[::-1] + [999]):
        if use is not None: kw["use_positions"] = use
        r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False, **kw)
        if not r["success"]: ctx.skip()
        res.append([(x["routeix"], x["amt1"], x["amt2"]) for x in w.routes(r)[0]])
    for x in res[1:]:
        ctx.check("filter-neutral", x == res[0], "filter-changes-result", f"{res[0]} vs {x}")
    # the same restricted book gives the same result as a book that holds only these orders
    ctx.run(ctx.trail)


def d_names(ctx):
    """tokens whose concatenated names coincide: ETHW/ETH and ETH/WETH"""
    for mm in ("exact", "fast", "alpha"):
        w = World(ctx, mm)
        a, _ = w.add_strategy("ETH", 10, 0.5, 0.4, base="ETHW", quote="ETH", single=True)
        b, _ = w.add_strategy("ETH", 10, 1.0, 1.2, base="ETH", quote="WETH", single=True)
        for pair, want in ((("ETHW", "ETH"), a), (("ETH", "WETH"), b)):
            r = w.trade(True, "ETH", 1, *pair, execute=False)
            if not r["success"]: ctx.fail("eligible-orders-not-used", r["error"])
            ids = [int(x["routeix"]) for x in w.routes(r)[0]]
            ctx.check("eligible", ids == [want], "ineligible-order:wrong pair", f"{pair}: routed through {ids}, expected {want}")
        ctx.run(("names", mm))


def d_tiny(ctx):
    """an order with any positive balance is tradable, whoever it is linked to"""
    for mm in ("exact", "fast", "alpha"):
        for y, amt in ((4e-10, 3e-10), (5e-7, 3e-7), (2e-5, 1e-5), (0.003, 0.001)):
            for kind in ("single", "pair", "self"):
                w = World(ctx, mm, pair="ETH/USDC", exclude_future=False)
                if kind == "single":
                    i, _ = w.add_strategy("ETH", y, 2000, 3000, base="ETH", quote="USDC", single=True)
                elif kind == "pair":
                    i, _ = w.add_strategy("ETH", y, 2000, 3000, 0, 1500, 1200, "ETH", "USDC")
                else:
                    add = getattr(w.sim, "_add_replace_single_order", None)
                    if add is None: continue
                    r = add("ETH", y, 2000, 3000)
                    if not r["success"]: continue
                    i = r["id"]
                    w.model[i] = w.model_order(i, i, "ETH", "ETH", "USDC", y, 2000, 3000)
                for use in (None, [i]):
                    r = w.trade(True, "ETH", amt, "ETH", "USDC", execute=False, use_positions=use)
                    if not r["success"]:
                        ctx.fail("eligible-orders-not-used", f"{mm}/{kind}: {amt} of the {y} on order {i} refused: {r['error']}")
                    ids = [int(x["routeix"]) for x in w.routes(r)[0]]
                    ctx.check("eligible", ids == [i], "ineligible-order:unknown", f"{mm}/{kind} routed through {ids}, only {i} sells")
                ctx.run(("tiny", mm, y, kind))
                ctx.cover("tiny", mm, kind)


DIRECTED = [("names", d_names), ("tiny", d_tiny)]
CASES = [("exact", case("exact"), 90, 1300), ("fast", case("fast"), 45, 600), ("alpha", case("alpha"), 35, 450), ("neutral", neutral, 50, 600)]
