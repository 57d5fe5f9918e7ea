from decimal import Decimal as D
from vlib.simlib import *

PID = "P05"
RULE = ("random books asked for amounts just below, exactly at, just above and far above what the eligible orders hold, by source and by "
        "target, with and without partial fills, for every matching method; draining sequences; distinct by event list; non-trivial "
        "if a shortfall or a full drain was exercised")
ASSUME = ["requests within 1e-6 (relative) of the available liquidity are only made with exactly representable amounts",
          "dust of up to 1e-9 left by rounding fills to 12 decimals is tolerated",
          "alpha matching is exercised with a threshold that admits every order"]
REQUIRED = ["accept", "refuse", "partial", "nonneg"]


def nonneg(ctx, w):
    for i, o in w.sim.orders.items():
        ctx.check("nonneg", o.y >= -D("1e-9") * max(D(1), dec(o.y_int)), "negative-holdings", f"order {i} holds {o.y}")


def scenario(mm):
    def run(ctx):
        rng = ctx.rng
        pairs = [rng.choice(PAIRS[:3])]
        base, quote = pairs[0]
        w = World(ctx, mm)
        for _ in range(crowd(rng, 1, 5)):
            w.random_strategy(pairs=pairs)
        kwx = dict(threshold_orders=100) if mm == "alpha" else {}
        n = 0
        for _ in range(rng.randint(2, 5)):
            out = rng.choice([base, quote]); inn = quote if out == base else base
            use = None
            orders = [o for o in w.eligible(out, base, quote)]
            if orders and rng.random() < 0.25:
                use = rng.sample([o.id for o in orders], rng.randint(1, len(orders)))
                orders = [o for o in orders if o.id in use]
            if not orders or min(o.y for o in orders) < D("1e-3"): continue
            bt = rng.random() < 0.5
            toty, totx = sum(o.y for o in orders), sum(o.dx_of_dy(o.y) for o in orders)
            tot = float(toty if bt else totx)
            if min(toty, totx) < D("1e-3"): continue
            f = rng.choice([0.5, 0.9, 0.999, 1.001, 1.1, 3, 1e6])
            amt = float("%.9g" % (tot * f))
            partial = rng.random() < 0.5
            execute = rng.random() < 0.6
            kw = dict(kwx)
            if partial: kw["support_partial"] = True
            if use is not None: kw["use_positions"] = use
            r = w.trade(bt, out if bt else inn, amt, base, quote, execute=execute, **kw)
            n += 1
            ctx.cover(mm, "t" if bt else "s", "f%g" % f, "partial" if partial else "full")
            if f < 1:
                ctx.check("accept", r["success"], "refused-within-liquidity", f"{amt} of {tot} refused: {r.get('error')}")
                a = w.routes(r)[1][0]
                ctx.close("accept", a["amt1"] if bt else a["amt2"], amt, "short-fill", 1e-9, 1e-9, "filled vs requested")
            elif not partial:
                ctx.check("refuse", not r["success"], "shortfall-accepted", f"{amt} of {tot} accepted: {r}")
            else:
                ctx.check("partial", r["success"], "partial-refused", f"{amt} of {tot} with partial fills refused: {r.get('error')}")
                a = w.routes(r)[1][0]
                ctx.close("partial", a["amt1"], float(toty), "partial-out", 1e-8 if mm == "exact" else 2e-7, 1e-8, "partial fill delivers everything there is")
                ctx.close("partial", a["amt2"], float(totx), "partial-in", 1e-6, 1e-7, "partial fill charges the cost of everything there is")
                ctx.check("partial", a["partial"] == True, "partial-not-flagged", "partial fill not flagged")
            if r["success"]:
                rt, ag = w.routes(r)
                check_fills(ctx, w, rt, "overdraw", "overdraw")
                if execute:
                    w.apply(r)
                    w.compare("nonneg", "book")
                    w.sync()
            else:
                w.compare("nonneg", "book-after-refusal")
            nonneg(ctx, w)
        ctx.run(ctx.trail, n > 0)
        ctx.sample(ctx.trail[:6])
    return run


def d_exact_amounts(mm):
    """asking for precisely what is there works, one unit in the 9th decimal more does not"""
    def run(ctx):
        for bt in (True, False):
            for extra in (0, 1e-6, 0.5):
                w = World(ctx, mm, pair="ETH/USDC")
                w.add_strategy("ETH", 10, 2000, 2000, base="ETH", quote="USDC", single=True)
                w.add_strategy("ETH", 5, 2500, 2500, base="ETH", quote="USDC", single=True)
                tot = 15 if bt else 10 * 2000 + 5 * 2500
                r = w.trade(bt, "ETH" if bt else "USDC", tot + extra, "ETH", "USDC")
                # tot is only hit by source up to rounding of the square roots: only the target side is decidable
                if extra:
                    ctx.check("refuse", not r["success"], "shortfall-accepted", f"{tot}+{extra} accepted")
                    w.compare("nonneg", "book-after-refusal")
                elif bt:
                    ctx.check("accept", r["success"], "refused-within-liquidity", f"{tot} refused {r.get('error')}")
                    w.apply(r); w.compare("nonneg", "book")
                    r = w.trade(bt, "ETH", 1, "ETH", "USDC", support_partial=True)
                    ctx.check("refuse", not r["success"], "empty-book-trade", "trade against an empty book accepted")
                ctx.run((mm, bt, extra))
    return run


def d_drain_refill(mm):
    def run(ctx):
        w = World(ctx, mm, pair="ETH/USDC")
        w.add_strategy("ETH", 10, 2000, 3000, 0, 1900, 1500, "ETH", "USDC")
        w.add_strategy("ETH", 3, 2100, 2200, 0, 1800, 1500, "ETH", "USDC")
        for k in range(3):
            for out, inn in (("ETH", "USDC"), ("USDC", "ETH")):
                os_ = w.eligible(out, "ETH", "USDC")
                if not os_: continue
                tot = float(sum(o.y for o in os_))
                r = w.trade(True, out, float("%.6g" % (tot * 2)), "ETH", "USDC", execute=True)
                ctx.check("refuse", not r["success"], "shortfall-accepted", f"twice the liquidity {tot} accepted")
                r = w.trade(True, out, float("%.6g" % (tot * 2)), "ETH", "USDC", support_partial=True,
                            **(dict(threshold_orders=50) if mm == "alpha" else {}))
                ctx.check("partial", r["success"], "partial-refused", f"{r.get('error')}")
                check_fills(ctx, w, w.routes(r)[0], "overdraw", "overdraw")
                w.apply(r); w.compare("nonneg", "book"); w.sync(); nonneg(ctx, w)
                if mm != "alpha":
                    left = sum(o.y for o in w.model.values() if o.tkn == out)
                    ctx.check("partial", abs(left) < D("1e-8"), "partial-left-something", f"{left} {out} left after partial fill of an excess request")
        ctx.run(("drain_refill", mm))
    return run


DIRECTED = [(f"{n}_{mm}", f(mm)) for n, f in (("exactamt", d_exact_amounts), ("drain", d_drain_refill)) for mm in ("exact", "fast", "alpha")]
CASES = [("exact", scenario("exact"), 120, 1800), ("fast", scenario("fast"), 60, 800), ("alpha", scenario("alpha"), 50, 600)]
