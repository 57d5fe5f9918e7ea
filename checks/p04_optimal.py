from decimal import Decimal as D
from vlib.simlib import *

PID = "P04"
RULE = ("random books of 1..8 competing orders (overlapping, disjoint, nested, fixed-price, narrow, identical, partly used) traded with exact "
        "matching by source and by target for amounts from tiny to nearly everything; total in/out compared with an independent "
        "water-filling optimum at 60 digits and with random alternative allocations; distinct by event list; non-trivial if two or more orders were eligible")
ASSUME = ["tolerance 1e-9 relative plus the 12-decimals rounding of each fill"]
REQUIRED = ["optimal", "delivered", "margins", "alternative"]


def check_optimal(ctx, w, tr, use=None, execute=False):
    orders = w.eligible(tr["out"], tr["base"], tr["quote"], use)
    kw = {"use_positions": list(use)} if use is not None else {}
    r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=execute, **kw)
    if not r["success"]:
        ctx.skip("refused")
    rt, ag = w.routes(r)
    amt = D(str(tr["amt"]))
    alloc, oy, ox, full = optimal(orders, amt, tr["by_target"])
    ty = sum(D(x["amt1"]) for x in rt)
    tx = sum(D(x["amt2"]) for x in rt)
    n = len(orders)
    rate_lo = min(float(o.pl) for o in orders); rate_hi = max(float(o.pmarg()) for o in orders)
    if tr["by_target"]:
        ctx.check("delivered", abs(float(ty - amt)) <= 1e-9 * float(amt) + 2e-12 * n, "not-delivered", f"asked {amt}, got {ty}")
        tol = 1e-9 * float(ox) + 3e-12 * n * (1 + 1 / rate_lo)
        ctx.check("optimal", float(tx - ox) <= tol, "not-optimal:source", f"paid {tx} for {amt}, best possible {float(ox)}")
        ctx.check("optimal", float(ox - tx) <= tol, "too-good:source", f"paid {tx} for {amt}, less than possible {float(ox)}")
    else:
        ctx.check("delivered", abs(float(tx - amt)) <= 1e-9 * float(amt) + 2e-12 * n, "not-delivered", f"offered {amt}, used {tx}")
        tol = 1e-9 * float(oy) + 3e-12 * n * (1 + rate_hi)
        ctx.check("optimal", float(oy - ty) <= tol, "not-optimal:target", f"received {ty} for {amt}, best possible {float(oy)}")
        ctx.check("optimal", float(ty - oy) <= tol, "too-good:target", f"received {ty} for {amt}, more than possible {float(oy)}")
    # equal marginal rate on all touched orders that are not drained; untouched ones are not better
    got = {int(x["routeix"]): D(x["amt1"]) for x in rt}
    end = {}
    for o in orders:
        dy = got.get(o.id, D(0))
        rest = o.y - dy
        if rest < 0: rest = D(0)
        end[o.id] = (float(o.pmarg(rest)), float(rest / o.yint), float(dy), float(o.S / o.B))
    live = [v[0] for v in end.values() if v[2] > 1e-6 and v[1] > 1e-9]
    if live:
        lo, hi = min(live), max(live)
        ctx.check("margins", hi <= lo * (1 + 1e-5), "margins-differ", f"used orders end at marginal rates {sorted(live)}")
        for i, v in end.items():
            if v[1] > 1e-9:
                ctx.check("margins", v[0] <= hi * (1 + 1e-5), "better-order-left", f"order {i} left at {v[0]} while others pushed to {hi}")
    # no randomly perturbed allocation does better
    if n >= 2 and len(orders) <= 8:
        for _ in range(2):
            wgt = [ctx.rng.random() ** 2 for _ in orders]
            tot = float(amt) if tr["by_target"] else None
            if tr["by_target"]:
                s = sum(wi * float(o.y) for wi, o in zip(wgt, orders))
                k = tot / s
                al = [D(wi * float(o.y) * k) for wi, o in zip(wgt, orders)]
                if any(a > o.y for a, o in zip(al, orders)): continue
                cost = sum(o.dx_of_dy(a) for a, o in zip(al, orders))
                ctx.check("alternative", float(tx) <= float(cost) * (1 + 1e-8) + tol, "alternative-better", f"alternative costs {float(cost)}, exact matching {tx}")
            else:
                s = sum(wi * float(o.dx_of_dy(o.y)) for wi, o in zip(wgt, orders))
                k = float(amt) / s
                al = [D(wi * float(o.dx_of_dy(o.y)) * k) for wi, o in zip(wgt, orders)]
                if any(a > o.dx_of_dy(o.y) for a, o in zip(al, orders)): continue
                got_ = sum(o.dy_of_dx(a) for a, o in zip(al, orders))
                ctx.check("alternative", float(ty) >= float(got_) * (1 - 1e-8) - tol, "alternative-better", f"alternative yields {float(got_)}, exact matching {ty}")
    ctx.cover("t" if tr["by_target"] else "s", "elig%d" % min(n, 8), "used%d" % min(len(rt), 8))
    if execute:
        w.apply(r); w.sync()
    return n


def book(ctx, w, pairs, n):
    rng = ctx.rng
    style = rng.choice(["mixed", "mixed", "crossed", "nested", "flat", "same"])
    base, quote = pairs[0]
    mid = MID[pairs[0]]
    if style == "mixed":
        for _ in range(n):
            w.random_strategy(pairs=pairs)
        return style
    for i in range(n):
        side = rng.choice([base, quote])
        above = side == base
        if style == "same":
            a, b = (mid * 1.01, mid * 1.3) if above else (mid * 0.99, mid * 0.7)
        elif style == "flat":
            a = b = mid * (rng.choice([1.01, 1.01, 1.02, 1.1]) if above else rng.choice([0.99, 0.98, 0.9]))
        elif style == "nested":
            w_ = rng.uniform(0.01, 0.4)
            a, b = (mid * (1.4 - w_), mid * (1.4 + w_)) if above else (mid * (0.6 + w_ / 2), mid * (0.6 - w_ / 2))
        else:
            a = mid * rng.uniform(0.7, 1.4); b = a * (1 + rng.uniform(0, 0.5)) if above else a / (1 + rng.uniform(0, 0.5))
        amt = r_amt(rng, 0.1, 1000) * (1 if above else mid)
        amt = float("%.6g" % amt)
        yint = amt * rng.uniform(1, 4) if rng.random() < 0.3 and a != b else None
        w.add_strategy(side, amt, a, b, base=base, quote=quote, yis=yint, single=True)
    return style


def case(ctx):
    rng = ctx.rng
    pairs = [rng.choice(PAIRS[:3])]
    w = World(ctx, "exact")
    n = rng.choice([1, 2, 2, 3, 4, 6, 8])
    style = book(ctx, w, pairs, n)
    best = 0
    for _ in range(rng.randint(2, 5)):
        tr = random_trade(ctx, w, pairs)
        if not tr: continue
        use = None
        if rng.random() < 0.2:
            ids = [o.id for o in w.eligible(tr["out"], tr["base"], tr["quote"])]
            use = rng.sample(ids, rng.randint(1, len(ids)))
            lim = sum((o.y if tr["by_target"] else o.dx_of_dy(o.y)) for o in w.model.values() if o.id in use)
            if D(str(tr["amt"])) > lim * D("0.99"):
                use = None
        k = check_optimal(ctx, w, tr, use, execute=rng.random() < 0.5)
        best = max(best, k)
    ctx.cover(style)
    ctx.run(ctx.trail, best > 1)
    ctx.sample(ctx.trail[:6])


def d_drain_chain(ctx):
    """several orders drain one after the other before the amount is reached"""
    w = World(ctx, "exact", pair="ETH/USDC")
    for a, b, q in ((2000, 2000, 0.3), (2001, 2100, 5), (2050, 4000, 1), (2050, 2051, 2), (1990, 1995, 0.01), (5000, 6000, 9)):
        w.add_strategy("ETH", q, a, b, base="ETH", quote="USDC", single=True)
    for bt in (True, False):
        for f in (0.001, 0.01, 0.1, 0.3, 0.5, 0.6, 0.9, 0.999):
            os_ = w.eligible("ETH", "ETH", "USDC")
            t = float(sum(o.y for o in os_) if bt else sum(o.dx_of_dy(o.y) for o in os_))
            check_optimal(ctx, w, dict(by_target=bt, tkn="ETH" if bt else "USDC", amt=float("%.8g" % (t * f)), base="ETH", quote="USDC",
                                       out="ETH", inn="USDC"))
    ctx.run("drain_chain")


def ladder(ctx):
    """many narrow orders of which a trade drains most"""
    rng = ctx.rng
    w = World(ctx, "exact", pair="ETH/USDC")
    n = rng.randint(7, 12)
    sell = rng.random() < 0.5
    p = 2000.0
    for i in range(n):
        p *= rng.choice([1.0001, 1.01, 1.05, 1.2]) if sell else 1 / rng.choice([1.0001, 1.01, 1.05, 1.2])
        b = p * (1 + rng.choice([0, 0.001, 0.01, 0.3]) * (1 if sell else -1))
        w.add_strategy("ETH" if sell else "USDC", float("%.6g" % (r_amt(rng, 0.1, 50) * (1 if sell else p))), float("%.9g" % p), float("%.9g" % b),
                       base="ETH", quote="USDC", single=True)
    out, inn = ("ETH", "USDC") if sell else ("USDC", "ETH")
    for _ in range(3):
        bt = rng.random() < 0.4
        os_ = w.eligible(out, "ETH", "USDC")
        t = float(sum(o.y for o in os_) if bt else sum(o.dx_of_dy(o.y) for o in os_))
        check_optimal(ctx, w, dict(by_target=bt, tkn=out if bt else inn, amt=float("%.8g" % (t * rng.choice([0.6, 0.8, 0.9, 0.97, 0.995]))),
                                   base="ETH", quote="USDC", out=out, inn=inn))
    ctx.cover("ladder%d" % n)
    ctx.run(ctx.trail, True)


DIRECTED = [("drain_chain", d_drain_chain)]
CASES = [("books", case, 300, 4500), ("ladder", ladder, 24, 500)]
