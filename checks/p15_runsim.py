from math import sqrt
from vlib.simlib import *
from vlib.core import close
import numpy as np, pandas as pd
from carbon.helpers.strategym import strategy
from carbon.helpers.simulation import run_sim

PID = "P15"
RULE = ("random strategies (one or several; with gaps, fixed-price and wide ranges, partly used, zero-seeded, uniswap-like) run over random price "
        "paths (trends, jumps, plateaus, oscillations, leading zeros); every step is compared with an independent shadow simulation, and runs over "
        "refined, scaled, shifted and split inputs with each other; distinct by strategy and path; non-trivial if something traded")
ASSUME = ["1e-7 relative tolerance (prices pass through float square roots)", "overlapping ranges only for the uniswap comparison",
          "paths are pandas series of positive prices (zeros only at the start)"]
REQUIRED = ["initial", "step", "value", "mid-value", "refine", "additive", "scale", "shift", "univ3", "marginal"]


def rand_path(rng, spot, n=None, kind=None):
    n = n or rng.choice([2, 3, 8, 20, 40])
    kind = kind or rng.choice(["walk", "walk", "jump", "osc", "trend", "plateau", "tiny"])
    p = [spot]
    for i in range(n - 1):
        x = p[-1]
        if kind == "walk": x *= math.exp(rng.gauss(0, 0.05))
        elif kind == "jump": x *= math.exp(rng.choice([0, 0, 0, rng.gauss(0, 0.7)]))
        elif kind == "osc": x = spot * math.exp(0.5 * math.sin(i * 1.3) + rng.gauss(0, 0.02))
        elif kind == "tiny": x *= 1 + rng.choice([-1, 1, 1 if spot > 100 else -1]) * 10 ** rng.uniform(-7, -4.5)
        elif kind == "trend": x *= rng.choice([1.04, 1.1]) if rng.random() < 0.8 else 0.97
        else: x = x if rng.random() < 0.6 else x * math.exp(rng.gauss(0, 0.1))
        p.append(min(max(x, spot / 1e4), spot * 1e4))
    idx = rng.choice([list(range(len(p))), list(pd.date_range("2021-01-01", periods=len(p)))])
    return pd.Series(p, index=idx), kind


def rand_strat(rng, mid=100.0, fixed=None, csh="CSH", rsk="RSK"):
    gs, gb = (1 + rng.choice([0, 0.001, 0.05, 0.3]) * rng.random() for _ in range(2))
    ws, wb = (rng.choice([0, 1e-3, 0.1, 1, 5]) * rng.uniform(0.3, 1) for _ in range(2))
    if ws == 0: gs += 1e-4            # at exactly its price a fixed-price order may trade or not
    if wb == 0: gb += 1e-4
    sa, ba = mid * gs, mid / gb
    kw = dict(p_sell_a=sa, p_sell_b=sa * (1 + ws), p_buy_a=ba, p_buy_b=ba / (1 + wb), rsk=rsk, csh=csh,
              amt_rsk=rng.choice([0, r_sig(rng, 0.1, 1000), r_sig(rng, 0.1, 1000)]), amt_csh=rng.choice([0, r_sig(rng, 10, 1e5), r_sig(rng, 10, 1e5)]))
    k = rng.random()
    if k < 0.25:
        if ws > 1e-3 and kw["amt_rsk"]: kw["psell_marginal"] = sa * (1 + ws * rng.uniform(0.05, 0.9))
        if wb > 1e-3 and kw["amt_csh"]: kw["pbuy_marginal"] = ba / (1 + wb * rng.uniform(0.05, 0.9))
    elif k < 0.45:
        if kw["amt_rsk"] and ws: kw["y_int_sell"] = kw["amt_rsk"] * rng.uniform(1, 5)
        if kw["amt_csh"] and wb: kw["y_int_buy"] = kw["amt_csh"] * rng.uniform(1, 5)
    kw["rescale"] = (rng.random() < 0.5) if fixed is None else not fixed
    if kw.get("y_int_sell") or kw.get("y_int_buy"): kw["rescale"] = False      # capacities are documented not to go with rescaling
    return strategy(**kw)


def desc(s):
    return {k: v for k, v in s.__dict__.items() if v is not None}


def shadow(strats, spot, shift):
    """independent curves of the (rescaled) strategies: list of (sell order, buy order)"""
    out = []
    for s in strats:
        f = spot * (1 + shift) / 100 if s.rescale else 1.0
        ar = s.amt_rsk if s.amt_rsk else 1e-10
        ac = s.amt_csh if s.amt_csh else 1e-10
        L = []
        for tkn, amt, pa, pb, pm, yi in (("R", ar, s.p_sell_a, s.p_sell_b, s.psell_marginal, s.y_int_sell), ("C", ac, s.p_buy_a, s.p_buy_b, s.pbuy_marginal, s.y_int_buy)):
            a, b = D(pa) * D(f), D(pb) * D(f)
            m = None if pm is None else D(pm) * D(f)
            if yi is not None and tkn == "C": yi = D(yi) * D(f)
            if tkn == "R": a, b = 1 / a, 1 / b; m = None if m is None else 1 / m
            y = D(amt)
            yint = D(yi) if yi is not None else y
            o = RefOrder(0, None, tkn, "R", "C", b, a, y, yint)
            if m is not None: o.yint = y * o.S / (m.sqrt() - o.B)
            L.append(o)
        out.append(tuple(L))
    return out


def step(L, spot):
    moved = False
    for s, b in L:
        for o, l in ((s, b), (b, s)):
            if o.yint == 0 or o.y <= 0: continue
            raw = D(spot) if o.tkn == "C" else 1 / D(spot)
            if raw >= o.pmarg(): continue
            dy = o.y if raw <= o.pl else o.dy_to_price(raw.sqrt())
            if dy < D("1e-10"): continue
            dx = o.dx_of_dy(dy)
            o.y -= dy; l.y += dx; l.yint = max(l.yint, l.y)
            moved = True
    return moved


def compare(ctx, mon, res, strats, path, shift, what):
    P = path[path > 0] if path.iloc[0] == 0 else path
    L = shadow(strats, P.iloc[0], shift)
    ctx.check(mon, len(res.rskamt_r) == len(P) and len(res.cshamt_r) == len(P) and len(res.value_r) == len(P) and list(res.spot_r.index) == list(P.index), "series-length", f"{len(res.rskamt_r)} vs {len(P)}")
    moved = 0
    scale_r = float(sum(s.yint for s, b in L)) + float(sum(b.yint for s, b in L)) / float(P.iloc[0])
    scale_c = scale_r * float(P.iloc[0])
    wide = all(min(float(o.S / o.B) for o in p) > 1e-9 for p in L)
    for i, spot in enumerate(P):
        if i: moved += step(L, float(spot))
        er, ec = float(sum(s.y for s, b in L)), float(sum(b.y for s, b in L))
        name = "initial" if i == 0 else mon
        ctx.close(name, res.rskamt_r[i], er, "risk-amount", 1e-7, 1e-9 * scale_r + 2e-10, f"{what}: risk asset after point {i} (spot {spot})")
        ctx.close(name, res.cshamt_r[i], ec, "cash-amount", 1e-7, 1e-9 * scale_c + 2e-10, f"{what}: cash after point {i} (spot {spot})")
        ctx.close("value", res.value_r.iloc[i], er * spot + ec, "value", 1e-7, 1e-9 * scale_c + 1e-9, f"{what}: value at {i}")
        r0, c0 = res.rskamt_r[0], res.cshamt_r[0]
        ctx.close("value", res.hodl_r.iloc[i], r0 * spot + c0, "hodl", 1e-9, 1e-9, f"{what}: hodl value at {i}")
        for k, (s, b) in enumerate(L):
            for o, r, nm in ((s, res.margpbuy_r, "ask"), (b, res.margpsell_r, "bid")):
                if o.yint > D("1e-6"):
                    p = float(o.pmarg()); p = 1 / p if o.tkn == "R" else p
                    ctx.close("marginal", r[k][i], p, "marginal-" + nm, 1e-5, 0, f"{what}: marginal price of the {nm} curve {k} at point {i}")
    return moved


def single(ctx):
    rng = ctx.rng
    spot = rng.choice([100.0, r_sig(rng, 0.01, 1e4)])
    n = rng.choice([1, 1, 2, 3])
    S = [rand_strat(rng) for _ in range(n)]
    for s in S:
        if not s.rescale and spot != 100.0:            # non-rescaled strategies live around 100
            s.rescale = True; s.y_int_sell = s.y_int_buy = None
    path, kind = rand_path(rng, spot)
    shift = rng.choice([None, 0, 0.05, -0.1]) if n == 1 else None
    zeros = rng.random() < 0.15
    P = path
    if zeros:
        P = path.copy(); z = rng.randint(1, max(1, len(path) - 1)); P.iloc[:z] = 0
        if z >= len(path): ctx.skip("all zero")
    ctx.log("strats", [desc(s) for s in S]); ctx.log("path", kind, list(P), "shift", shift)
    before = [desc(s) for s in S]
    res = run_sim(S if n > 1 or rng.random() < 0.5 else S[0], P, shift)
    ctx.check("initial", before == [desc(s) for s in S], "strategy-changed", "running the simulation changed the strategy object")
    moved = compare(ctx, "step", res, S, P, shift or 0, "run")
    ctx.cover(kind, "n%d" % n, "moved" if moved else "still", "zeros" if zeros else "", "shift" if shift else "")
    # everything is bought below and sold above the mid price: valued there, no step ever loses
    if n == 1 and not S[0].rescale or (n == 1 and not shift):
        mid = 100.0 if not S[0].rescale else float(P[P > 0].iloc[0])
        v = res.rskamt_r * mid + res.cshamt_r
        sc = abs(v).max()
        ctx.check("mid-value", bool((np.diff(v) >= -1e-9 * sc - 1e-8).all()), "mid-value-fell", f"value at the mid price {mid}: {list(v)}")
    if n > 1:
        parts = [run_sim(s, P, shift) for s in S]
        for i in range(len(res.rskamt_r)):
            ctx.close("additive", res.rskamt_r[i], sum(p.rskamt_r[i] for p in parts), "not-additive", 1e-9, 1e-9, f"risk amount at {i}")
            ctx.close("additive", res.cshamt_r[i], sum(p.cshamt_r[i] for p in parts), "not-additive", 1e-9, 1e-9, f"cash amount at {i}")
    ctx.run(ctx.trail, moved > 0)
    ctx.sample(ctx.trail[:2])


def refine(ctx):
    """visiting intermediate prices between two points of the path changes nothing at the original points"""
    rng = ctx.rng
    s = rand_strat(rng, fixed=True)
    path, kind = rand_path(rng, 100.0, n=rng.choice([4, 10, 20]))
    L, keep = [path.iloc[0]], [0]
    for a, b in zip(path.iloc[:-1], path.iloc[1:]):
        for f in sorted(rng.random() for _ in range(rng.choice([0, 1, 4]))): L.append(a + (b - a) * f)
        keep.append(len(L)); L.append(b)
    ctx.log("refine", desc(s), L)
    r0, r1 = run_sim(s, path), run_sim(s, pd.Series(L))
    sr = r0.rskamt_r.max() + r0.cshamt_r.max() / 100
    for i, j in enumerate(keep):
        ctx.close("refine", r1.rskamt_r[j], r0.rskamt_r[i], "refine", 1e-7, 1e-8 * sr + 1e-8, f"risk amount at {i}"); ctx.close("refine", r1.cshamt_r[j], r0.cshamt_r[i], "refine", 1e-7, 1e-6 * sr + 1e-7, f"cash at {i}")
    # same run in another unit of cash
    k = r_sig(rng, 0.01, 100)
    d = {**desc(s)}
    for f in ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "psell_marginal", "pbuy_marginal", "amt_csh", "y_int_buy"):
        if d.get(f) is not None: d[f] = d[f] * k
    if s.amt_csh > 1e-9:
        r2 = run_sim(strategy(**d), path * k)
        for i in range(len(path)):
            ctx.close("scale", r2.rskamt_r[i], r0.rskamt_r[i], "unit-dependence", 1e-7, 1e-8 * sr + 1e-8, f"risk amount at {i} with cash in units of 1/{k}")
            ctx.close("scale", r2.cshamt_r[i], r0.cshamt_r[i] * k, "unit-dependence", 1e-7, (1e-6 * sr + 1e-7) * k, f"cash at {i} with cash in units of 1/{k}")
    # centring with a shift is rescaling beforehand
    t = strategy(**{**desc(s), "rescale": True, "y_int_sell": None, "y_int_buy": None}); sh = rng.choice([0.0, 0.1, -0.2, 1.0])
    r3, r4 = run_sim(t, path, sh), run_sim(t.rescale_strat(path.iloc[0] * (1 + sh)), path)
    ctx.check("shift", np.allclose(r3.rskamt_r, r4.rskamt_r, rtol=1e-9, atol=1e-9) and np.allclose(r3.cshamt_r, r4.cshamt_r, rtol=1e-9, atol=1e-9), "shift", f"shift {sh}")
    ctx.run(ctx.trail, float(abs(np.diff(r0.rskamt_r)).sum()) > 0)


def univ3(ctx):
    """the uniswap-like strategy without fees holds what a constant-liquidity position holds"""
    rng = ctx.rng
    lo = r_sig(rng, 1, 1000); hi = lo * (1 + rng.choice([0.05, 0.5, 3]) * rng.uniform(0.5, 1))
    below = rng.random() < 0.5
    tvl = rng.choice([None, r_sig(rng, 10, 1e6)])
    s = strategy.from_u3(lo, hi, below, tvl_csh=tvl)
    tvl = tvl or 1000.0
    start = lo * 0.9 if below else hi * 1.1
    path, kind = rand_path(rng, start, n=rng.choice([10, 30]), kind=rng.choice(["walk", "osc", "jump"]))
    # steer the path through the range
    L = [start] + [float(lo * 0.8 * (hi * 1.25 / (lo * 0.8)) ** rng.random()) for _ in range(15)] + [lo * 0.5, hi * 2]
    path = pd.Series(L)
    res = run_sim(s, path)
    liq = tvl / (sqrt(hi) - sqrt(lo))
    for i, p in enumerate(L):
        q = min(max(p, lo), hi)
        ctx.close("univ3", res.rskamt_r[i], liq * (1 / sqrt(q) - 1 / sqrt(hi)), "univ3-risk", 1e-6, 1e-6 * tvl / lo, f"risk asset at {p} in [{lo},{hi}]")
        ctx.close("univ3", res.cshamt_r[i], liq * (sqrt(q) - sqrt(lo)), "univ3-cash", 1e-6, 1e-6 * tvl, f"cash at {p} in [{lo},{hi}]")
    ctx.run((lo, hi, below, L), True)
    # with fees the position earns on every round trip
    fee = rng.choice([0.001, 0.01])
    if hi > lo * 1.2:
        f = strategy.from_u3(lo, hi, below, tvl_csh=tvl, fee_pc=fee)
        m = sqrt(lo * hi)
        ctx.close("univ3", f.p_sell_a - lo, m * fee / 2, "u3-fee", 1e-6, 0); ctx.close("univ3", hi - f.p_buy_a, m * fee / 2, "u3-fee", 1e-6, 0)
        far = [start] + [lo * 0.5, hi * 2] * 4
        r = run_sim(f, pd.Series(far))
        b = r.rskamt_r[1::2] if len(r.rskamt_r) > 2 else []
        ctx.check("univ3", all(y >= x * (1 - 1e-9) for x, y in zip(b, b[1:])), "u3-fee-loses", f"risk asset at the bottom of each cycle {list(b)}")


DIRECTED = []
CASES = [("single", single, 500, 12000), ("refine", refine, 160, 4000), ("univ3", univ3, 120, 3000)]
