from decimal import Decimal as D
from vlib.simlib import *

PID = "P12"
RULE = ("random books traded with fast and alpha matching (alpha with every threshold from 1 to beyond the number of orders), by source and by "
        "target, compared with a reference greedy matcher, with the exact optimum over the whole book and over the orders used, and with exact "
        "matching of the simulator itself; distinct by event list; non-trivial if two or more orders were eligible")
ASSUME = ["ties between equally good orders are not judged", "tolerances as in P04"]
REQUIRED = ["fast-greedy", "fast-delivered", "alpha-threshold", "alpha-optimal-in-subset", "alpha=exact", "never-better"]


def totals(rt):
    return sum(D(x["amt1"]) for x in rt), sum(D(x["amt2"]) for x in rt)


def greedy(orders, amt, by_target):
    """reference fast matching; returns list of (id, dy, dx) or None if a tie makes the outcome ambiguous"""
    Q = []
    for o in orders:
        if by_target:
            dy = min(amt, o.y); dx = o.dx_of_dy(dy)
        else:
            dy = min(o.dy_of_dx(amt), o.y); dx = o.dx_of_dy(dy)
        Q.append((dy / dx, dy, dx, o))
    Q.sort(key=lambda q: -q[0])
    for a, b in zip(Q, Q[1:]):
        if abs(a[0] / b[0] - 1) < D("1e-9"):
            return None
    rest, res = amt, []
    for rate, dy, dx, o in Q:
        size = dy if by_target else dx
        if rest > size * (1 + D("1e-20")):
            res.append((o.id, dy, dx)); rest -= size
        else:
            d = rest if by_target else o.dy_of_dx(rest)
            res.append((o.id, d, o.dx_of_dy(d))); rest = D(0)
            break
    return res


def bounds(ctx, tr, rt, orders, tag):
    """never better than the optimum over the whole book"""
    ty, tx = totals(rt)
    amt = D(str(tr["amt"]))
    _, oy, ox, _ = optimal(orders, amt, tr["by_target"])
    n = len(orders)
    rlo = min(float(o.pl) for o in orders); rhi = max(float(o.pmarg()) for o in orders)
    if tr["by_target"]:
        ctx.close("fast-delivered" if tag == "fast" else "alpha-delivered", ty, amt, tag + "-delivered", 1e-9, 3e-12 * n, "bought vs requested")
        ctx.check("never-better", float(ox - tx) <= 1e-9 * float(ox) + 3e-12 * n * (1 + 1 / rlo), tag + "-too-good", f"{tx} < optimum {float(ox)}")
        return float(tx / ox) - 1
    ctx.close("fast-delivered" if tag == "fast" else "alpha-delivered", tx, amt, tag + "-delivered", 1e-9, 3e-12 * n, "sold vs requested")
    ctx.check("never-better", float(ty - oy) <= 1e-9 * float(oy) + 3e-12 * n * (1 + rhi), tag + "-too-good", f"{ty} > optimum {float(oy)}")
    return float(oy / ty) - 1


def fast(ctx):
    rng = ctx.rng
    pairs = [rng.choice(PAIRS[:3])]
    w = World(ctx, "fast")
    for _ in range(crowd(rng, 1, 6)):
        w.random_strategy(pairs=pairs)
    best = 0
    for _ in range(rng.randint(2, 5)):
        tr = random_trade(ctx, w, pairs)
        if not tr: continue
        orders = w.eligible(tr["out"], tr["base"], tr["quote"])
        if min(o.y for o in orders) < D("1e-6"): continue
        ex = rng.random() < 0.5
        r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=ex)
        if not r["success"]: ctx.skip("refused")
        rt, ag = w.routes(r)
        check_fills(ctx, w, rt, "fast-curve", "off-curve")
        loss = bounds(ctx, tr, rt, orders, "fast")
        g = greedy(orders, D(str(tr["amt"])), tr["by_target"])
        if g is not None:
            got = [(int(x["routeix"]), x["amt1"], x["amt2"]) for x in rt]
            # a residual below the rounding of fills may show up as an extra empty leg
            got = [x for x in got if x[1] > 1e-10 or x[2] > 1e-10]
            g = [x for x in g if x[1] > D("1e-10") or x[2] > D("1e-10")]
            ctx.check("fast-greedy", [x[0] for x in got] == [x[0] for x in g], "fast-order", f"used orders {got}, greedy matching uses {[(a, float(b), float(c)) for a, b, c in g]}")
            for a, b in zip(got, g):
                ctx.close("fast-greedy", a[1], b[1], "fast-amount", 1e-8, 1e-9, f"order {a[0]} sells")
                ctx.close("fast-greedy", a[2], b[2], "fast-amount", 1e-8, 1e-9, f"order {a[0]} buys")
        best = max(best, len(orders))
        ctx.cover("fast", "t" if tr["by_target"] else "s", "elig%d" % min(6, len(orders)), "used%d" % min(5, len(rt)), "worse" if loss > 1e-6 else "same")
        if ex: w.apply(r); w.sync()
    ctx.run(ctx.trail, best > 1)
    ctx.sample(ctx.trail[:6])


def alpha(ctx):
    rng = ctx.rng
    pairs = [rng.choice(PAIRS[:3])]
    state = rng.getstate()
    w = World(ctx, "alpha")
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 9, 14])
    for _ in range(n): w.random_strategy(pairs=pairs)
    end = rng.getstate()
    rng.setstate(state)
    wx = World(ctx, "exact")
    rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 9, 14])
    for _ in range(n): wx.random_strategy(pairs=pairs)
    rng.setstate(end)
    best = 0
    for _ in range(rng.randint(2, 4)):
        tr = random_trade(ctx, w, pairs)
        if not tr: continue
        orders = w.eligible(tr["out"], tr["base"], tr["quote"])
        if min(o.y for o in orders) < D("1e-6"): continue
        N = len(orders)
        th = rng.choice([1, 2, 3, N, N + 1, 10, 100, None, None])
        kw = {"threshold_orders": th}
        if th is None:      # ten unless told otherwise
            th = 10
            kw = {}
        r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False, **kw)
        caps = sorted((float(o.y if tr["by_target"] else o.dx_of_dy(o.y)) for o in orders), reverse=True)
        reach = sum(caps[:th])
        if not r["success"]:
            ctx.check("alpha-threshold", reach < tr["amt"] * 1.000001, "alpha-refused", f"{tr['amt']} refused although {th} orders hold {reach}: {r['error']}")
            ctx.cover("alpha", "refused")
            continue
        ctx.check("alpha-threshold", reach >= tr["amt"] * (1 - 1e-9), "alpha-beyond-threshold", f"{tr['amt']} filled although {th} orders only hold {reach}")
        rt, ag = w.routes(r)
        ctx.check("alpha-threshold", len([x for x in rt if x["amt1"] > 1e-11]) <= th, "alpha-too-many-orders", f"{len(rt)} orders used, threshold {th}")
        check_fills(ctx, w, rt, "alpha-curve", "off-curve")
        for x in rt:
            ctx.check("alpha-threshold", x["threshold_orders"] == th, "alpha-threshold-record", f"{x['threshold_orders']} vs {th}")
        loss = bounds(ctx, tr, rt, orders, "alpha")
        used = {int(x["routeix"]) for x in rt}
        _, oy, ox, _ = optimal([o for o in orders if o.id in used], D(str(tr["amt"])), tr["by_target"])
        ty, tx = totals(rt)
        rlo = min(float(o.pl) for o in orders); rhi = max(float(o.pmarg()) for o in orders)
        ctx.check("alpha-optimal-in-subset", float(tx - ox) <= 1e-9 * float(ox) + 3e-12 * N * (1 + 1 / rlo) if tr["by_target"] else
                  float(oy - ty) <= 1e-9 * float(oy) + 3e-12 * N * (1 + rhi), "alpha-not-optimal", f"{ty} for {tx}; optimum over the same orders {float(oy)} for {float(ox)}")
        if th >= N:
            rx = wx.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False)
            if rx["success"]:
                a, b = ag[0], wx.routes(rx)[1][0]
                ctx.close("alpha=exact", a["amt1"], b["amt1"], "alpha-differs-from-exact", 1e-9, 3e-12 * N * (1 + rhi), f"amt1 with threshold {th} >= {N} orders")
                ctx.close("alpha=exact", a["amt2"], b["amt2"], "alpha-differs-from-exact", 1e-9, 3e-12 * N * (1 + 1 / rlo), f"amt2 with threshold {th} >= {N} orders")
        best = max(best, N)
        ctx.cover("alpha", "t" if tr["by_target"] else "s", "N%d" % min(N, 7), "th%s" % ("1" if th == 1 else "<N" if th < N else ">=N"), "worse" if loss > 1e-6 else "same")
    ctx.run(ctx.trail, best > 1)
    ctx.sample(ctx.trail[-6:])


def d_alpha_swap(ctx):
    """the best-priced orders are too small for the threshold: bigger ones must be taken in"""
    for bt in (True, False):
        w = World(ctx, "alpha", pair="ETH/USDC")
        for i, q in enumerate((0.5, 0.7, 0.6, 20, 0.9, 30)):
            w.add_strategy("ETH", q, 2000 + i, 2100 + 3 * i, base="ETH", quote="USDC", single=True)
        for th in range(1, 7):
            for amt in (0.4, 1.5, 19, 35, 49):
                orders = w.eligible("ETH", "ETH", "USDC")
                a = amt if bt else float("%.8g" % (amt * 2010))
                r = w.trade(bt, "ETH" if bt else "USDC", a, "ETH", "USDC", threshold_orders=th, execute=False)
                caps = sorted((float(o.y if bt else o.dx_of_dy(o.y)) for o in orders), reverse=True)
                can = sum(caps[:th]) >= a
                ctx.check("alpha-threshold", r["success"] == can, "alpha-refused" if can else "alpha-beyond-threshold", f"{a} with {th} orders: {r.get('error')}")
                if can:
                    rt = w.routes(r)[0]
                    ctx.check("alpha-threshold", len(rt) <= th, "alpha-too-many-orders", f"{len(rt)} > {th}")
        ctx.run(("swap", bt))


def d_alpha_default(ctx):
    """more than ten orders and no threshold: ten are used"""
    for bt in (True, False):
        for n in (9, 10, 11, 12, 13, 16):
            w = World(ctx, "alpha", pair="ETH/USDC")
            for i in range(n): w.add_strategy("ETH", 1 + 0.01 * i, 2000 + i, 2300 + 3 * i, base="ETH", quote="USDC", single=True)
            orders = w.eligible("ETH", "ETH", "USDC")
            for kw in ({}, {"threshold_orders": 10}) + (({"threshold_orders": None},) if bt else ()):
                for part in (0.3, 0.99, 1.01):
                    caps = sorted((float(o.y if bt else o.dx_of_dy(o.y)) for o in orders), reverse=True)
                    a = float("%.8g" % (sum(caps[:10]) * part))
                    r = w.trade(bt, "ETH" if bt else "USDC", a, "ETH", "USDC", execute=False, **kw)
                    can = part < 1
                    ctx.check("alpha-threshold", r["success"] == can, "alpha-default-refused" if can else "alpha-default-beyond", f"{a} of {n} orders {kw}: {r.get('error')}")
                    if can: ctx.check("alpha-threshold", len(w.routes(r)[0]) <= 10, "alpha-default-too-many", f"{len(w.routes(r)[0])} orders used")
        ctx.run(("default", bt))


def d_alpha_wide(ctx):
    """orders over wide ranges that are drained: what they take is less than their price at the start suggests"""
    for bt in (True, False):
        w = World(ctx, "alpha", pair="ETH/USDC")
        for i, (q, lo, hi) in enumerate(((1, 2000, 9000), (1.3, 2005, 7000), (0.8, 2008, 8000), (1.1, 2012, 6000), (10, 39000, 40000), (12, 41000, 42000))):
            w.add_strategy("ETH", q, lo, hi, base="ETH", quote="USDC", single=True)
        orders = w.eligible("ETH", "ETH", "USDC")
        cap = lambda o: float(o.y if bt else o.dx_of_dy(o.y))
        caps = sorted(map(cap, orders), reverse=True)
        best = sorted(orders, key=lambda o: -o.pmarg())
        for th in range(1, 7):
            base = sum(cap(o) for o in best[:th])
            for k in (0.97, 1.005, 1.05, 1.15, 1.3, 1.6, 2.2, 4, 8):
                a = float("%.8g" % (base * k))
                if abs(a / sum(caps[:th]) - 1) < 1e-4: continue
                r = w.trade(bt, "ETH" if bt else "USDC", a, "ETH", "USDC", threshold_orders=th, execute=False)
                can = sum(caps[:th]) >= a
                ctx.check("alpha-threshold", r["success"] == can, "alpha-refused" if can else "alpha-beyond-threshold", f"wide: {a} with {th} orders: {r.get('error')}")
                if can:
                    rt = w.routes(r)[0]
                    ctx.check("alpha-threshold", len(rt) <= th, "alpha-too-many-orders", f"{len(rt)} > {th}")
        ctx.run(("wide", bt))


DIRECTED = [("alpha_swap", d_alpha_swap), ("alpha_default", d_alpha_default), ("alpha_wide", d_alpha_wide)]
CASES = [("fast", fast, 110, 1600), ("alpha", alpha, 80, 1100)]
