from decimal import Decimal as D
from vlib.simlib import *

PID = "P06"
RULE = ("random books and trades (all verbs, methods, pair orientations); the average price of an unlimited quote places limit prices and "
        "limit amounts on either side and exactly at it; distinct by event list; non-trivial if both a met and a missed limit were seen")
ASSUME = ["limits closer than 1e-7 (relative) to the achievable price are only tested at exact equality of prices"]
REQUIRED = ["price-met", "price-missed", "amt-met", "amt-missed", "flag", "equal"]


def result_ok(ctx, w, r, expect_exec, what, tr, ag0, snap):
    ctx.check("flag", r["success"], "limit-trade-error", f"{what}: {r.get('error')}")
    rt, ag = w.routes(r)
    for x in rt + ag:
        ctx.check("flag", x["limitfail"] == (not expect_exec), "limitfail-flag", f"{what}: limitfail={x['limitfail']}")
        ctx.check("flag", bool(x["exec"]) == expect_exec, "exec-flag", f"{what}: exec={x['exec']}")
    if expect_exec:
        a = ag[0]
        ctx.close("flag", a["amt1"], ag0["amt1"], "limit-changes-amount", 1e-9, 1e-9, what)
        ctx.close("flag", a["amt2"], ag0["amt2"], "limit-changes-amount", 1e-9, 1e-9, what)
        w.apply(r); w.compare("flag", "book"); w.sync()
    else:
        ctx.check("flag", w.snapshot() == snap, "missed-limit-executed", f"{what}: the book moved")


def case(mm):
    def run(ctx):
        rng = ctx.rng
        pairs = [rng.choice(PAIRS[:3])]
        w = World(ctx, mm)
        for _ in range(crowd(rng, 1, 4)):
            w.random_strategy(pairs=pairs)
        kinds = set()
        for _ in range(rng.randint(2, 4)):
            tr = random_trade(ctx, w, pairs)
            if not tr: continue
            base, quote, out = tr["base"], tr["quote"], tr["out"]
            rev = rng.random() < 0.3
            pb, pq = (quote, base) if rev else (base, quote)
            kw = dict(pair=f"{pb}/{pq}")
            if mm == "alpha": kw["threshold_orders"] = 100
            snap = w.snapshot()
            q = w.trade(tr["by_target"], tr["tkn"], tr["amt"], base, quote, execute=False, **kw)
            if not q["success"]: ctx.skip("refused")
            a = w.routes(q)[1][0]
            ctx.check("flag", a["limitfail"] is None, "limitfail-without-limit", str(a["limitfail"]))
            paid, got = a["amt2"], a["amt1"]
            if min(paid, got) < 1e-4: continue
            # price in the pair of the request: quote per base
            price = got / paid if out == pq else paid / got
            buys_base = out == pb                         # the trader buys the base token
            # factor > 1: limit more generous than achievable
            f = rng.choice([1.5, 1.01, 1.0001, 1.000001, 0.999999, 0.9999, 0.99, 0.6])
            met = f > 1
            if rng.random() < 0.55:
                lim = price * f if buys_base else price / f
                mon = "price-met" if met else "price-missed"
                kw["limit_price"] = lim
                what = f"{'buy' if buys_base else 'sell'} {pb} at limit {lim}, achievable {price}"
            else:
                mon = "amt-met" if met else "amt-missed"
                lim = paid * f if tr["by_target"] else got / f
                kw["limit_amt"] = lim
                what = f"limit amount {lim} {'to pay' if tr['by_target'] else 'to get'}, achievable {paid if tr['by_target'] else got}"
            ctx.ev(mon)
            r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], base, quote, **kw)
            result_ok(ctx, w, r, met, what, tr, a, snap)
            kinds.add(met)
            ctx.cover(mm, "t" if tr["by_target"] else "s", "rev" if rev else "", "buybase" if buys_base else "buyquote", mon)
        ctx.run(ctx.trail, len(kinds) > 0)
        ctx.sample(ctx.trail[:8])
    return run


def d_equal(mm):
    """a limit exactly at the achieved price is met; fixed-price orders make the price exact"""
    def run(ctx):
        for bt, tkn, out in ((True, "ETH", "ETH"), (False, "USDC", "ETH"), (True, "USDC", "USDC"), (False, "ETH", "USDC")):
            w = World(ctx, mm, pair="ETH/USDC")
            w.add_strategy("ETH", 10, 2048, 2048, 16384, 1024, 1024, "ETH", "USDC")
            p = 2048 if out == "ETH" else 1024
            amt = 2 if tkn == "ETH" else 2 * p
            q = w.trade(bt, tkn, amt, "ETH", "USDC", execute=False)
            a = w.routes(q)[1][0]
            f0 = w.snapshot()
            lim = a["price"]
            r = w.trade(bt, tkn, amt, "ETH", "USDC", limit_price=lim)
            ctx.ev("equal")
            result_ok(ctx, w, r, True, f"limit equal to price {lim}", None, a, f0)
            # one part in a million either side
            for f, met in ((1 + 1e-6, True), (1 - 1e-6, False)):
                f0 = w.snapshot()
                lim2 = p * f if out == "ETH" else p / f
                r = w.trade(bt, tkn, amt, "ETH", "USDC", limit_price=lim2)
                result_ok(ctx, w, r, met, f"limit {lim2} vs {p}", None, a, f0)
            ctx.run((mm, bt, tkn))
    return run


def d_both(ctx):
    w = World(ctx, "exact", pair="ETH/USDC")
    w.add_strategy("ETH", 10, 2000, 2500, 10000, 1900, 1500, "ETH", "USDC")
    f0 = w.snapshot()
    for bt, tkn in ((True, "ETH"), (False, "USDC")):
        r = w.trade(bt, tkn, 1, "ETH", "USDC", limit_price=5000, limit_amt=1)
        ctx.check("flag", not r["success"], "both-limits-accepted", "limit price and limit amount accepted together")
        ctx.check("flag", w.snapshot() == f0, "both-limits-executed", "")
    ctx.run("both")


DIRECTED = [("equal_exact", d_equal("exact")), ("equal_fast", d_equal("fast")), ("equal_alpha", d_equal("alpha")), ("both", d_both)]
CASES = [("exact", case("exact"), 110, 1600), ("fast", case("fast"), 50, 700), ("alpha", case("alpha"), 40, 500)]
