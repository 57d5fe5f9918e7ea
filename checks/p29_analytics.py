"""order books and curves computed by the analytics module"""
import math
import numpy as np, pandas as pd
from decimal import Decimal as D
import matplotlib
matplotlib.use("Agg")
from vlib.core import close
from vlib.cpclib import quiet, sig
from vlib.simlib import World, optimal, dec
from carbon import CarbonPair, CarbonOrderUI
from carbon.simulators import sim_analytics as al
from carbon.simulators.sim_analytics import Analytics as A, OrderBook as OB

PID = "P29"
RULE = ("random books quoted through the analytics object at sizes from dust to beyond liquidity, on both sides, with default and explicit pairs, tokens and simulators; order "
        "books made from simulated and synthetic amounts with missing values in any position; approximate books over random price grids; distinct by book and sizes; "
        "non-trivial with at least two orders or three sizes")
ASSUME = ["a quote that the simulator refuses is reported as the documented failure value", "books are matched exactly (best price), so quotes are compared with the optimal fill"]
REQUIRED = ["price", "amount", "failure", "unchanged", "arguments", "book", "marginal", "liquidity", "units", "frames", "truncate", "vectors", "approx", "sim-book"]


def frozen(sim): return {i: (o.y, o.y_int, o.linked_to_id, o.p_high, o.p_low, bool(o.disabled)) for i, o in sim.orders.items()}


def quotes(ctx):
    rng = ctx.rng
    base, quote = rng.choice([("ETH", "USDC"), ("USDC", "ETH"), ("LINK", "ETH"), ("ETH", "LINK")])
    P = CarbonPair(tknb=base, tknq=quote)
    other = CarbonPair(tknb="WBTC", tknq="USDC")
    default = rng.random() < 0.7
    w = World(ctx, "exact", pair=P if default else rng.choice([None, other]))
    for _ in range(rng.choice([1, 2, 3, 5])): w.random_strategy(rng, pairs=[(base, quote)])
    if rng.random() < 0.5: w.random_strategy(rng, pairs=[("WBTC", "USDC")])
    sells, buys = w.eligible(base, base, quote), w.eligible(quote, base, quote)
    # where the analytics gets its simulator from
    how = rng.choice(["own", "own", "given", "given-both"])
    a = A(w.sim) if how == "own" else A() if how == "given" else A(World(ctx, "exact", pair=other).sim)
    cy = sum(o.y for o in sells); cx = sum(o.dx_of_dy(o.y) for o in buys)
    n = 0
    for _ in range(8):
        ask = rng.random() < 0.5
        os = sells if ask else buys; cap = cy if ask else cx
        size = sig(rng, 1e-3, 1e4) if not os or rng.random() < 0.15 else float(cap) * rng.choice([rng.random(), rng.random() ** 3, 0.999, 1.01, 3])
        if size <= 1e-9: continue
        f0 = frozen(w.sim)
        kw = {} if how == "own" else dict(sim=w.sim)
        ctx.log("ask" if ask else "bid", size, how, default)
        # effective price
        ek = dict(kw)
        if not default or rng.random() < 0.4: ek.update(tkn=base, pair=rng.choice([P.slashpair, f"{base}/{quote}"]))
        side = rng.choice([A.ASK_BOOK, A.ASK, A.OFFER, A.OFFER_BOOK, A.AMM_SELLS_BASETOKEN]) if ask else rng.choice([A.BID_BOOK, A.BID, A.AMM_BUYS_BASETOKEN])
        p = a.effective_price(size, side, **ek)
        # amount
        tk = dict(kw)
        if not default or rng.random() < 0.4: tk["carbon_pair"] = P
        t = a.simulate_trades(size, A.AMM_SELLS_BASETOKEN if ask else A.AMM_BUYS_BASETOKEN, **tk) if (how == "own" or default or True) else None
        ctx.check("unchanged", frozen(w.sim) == f0, "book", "a quote changed the orders")
        if float(cap) * (1 + 1e-7) < size or not os:
            ctx.check("failure", p == (0. if ask else A.MAXPRICE) and t is None, "value", f"size {size} of {float(cap)}: price {p}, amount {t}")
            continue
        if float(cap) * (1 - 1e-7) < size or (size < 1e-4 * float(cap)): continue
        fills, oy, ox, _ = optimal(os, dec(size), ask)
        want = float(ox) if ask else float(oy)
        n += 1
        ctx.check("amount", t is not None and close(t, want, 1e-6, 1e-7), "amount", f"{'ask' if ask else 'bid'} {size}: {t} expected {want}")
        ctx.check("price", close(p, want / size, 1e-6, 1e-7 / size), "price", f"{'ask' if ask else 'bid'} {size}: {p} expected {want / size}")
    for f in (lambda: a.effective_price(1, "x", tkn=base, sim=w.sim, pair=P.slashpair), lambda: a.simulate_trades(1, "x", sim=w.sim, carbon_pair=P), lambda: a.simulate_trades(1, A.ASK, sim=w.sim, carbon_pair=P.slashpair),
              lambda: A().effective_price(1, A.BID), lambda: A().effective_price(1, A.BID, tkn=base), lambda: A().simulate_trades(1, A.ASK), lambda: A().simulate_trades(1, A.ASK, carbon_pair=None)):
        try: f(); ctx.check("arguments", False, "accepted", "")
        except ValueError: ctx.ev("arguments")
    if w.sim.carbon_pair is None:
        for f in (lambda: A(w.sim).effective_price(1, A.BID), lambda: A(w.sim).effective_price(1, A.BID, tkn=base), lambda: A(w.sim).simulate_trades(1, A.ASK)):
            try: f(); ctx.check("arguments", False, "nodefault:accepted", "")
            except ValueError: ctx.ev("arguments")
    # a book from quotes: what trading costs at each size
    ask = rng.random() < 0.5; os = sells if ask else buys; cap = float(cy if ask else cx)
    if os and default and how == "own" and cap > 1e-2:
        k = rng.choice([5, 12])
        top = cap * rng.choice([0.9, 0.5, 1.4])
        src = al.linspace0(top, k)
        side = A.ASK if ask else A.BID
        trg = al.vec([a.simulate_trades(s, side) for s in src])
        ob = OB(src, trg, base, quote, OB.ASK if ask else OB.BID)
        good = [s for s in src if s < cap]
        ctx.check("sim-book", len(ob.src_amounts) == len(ob.trg_amounts) and abs(len(ob.src_amounts) - len(good)) <= 1, "length", f"{len(ob.src_amounts)} for {len(good)} sizes within {cap}")
        mp = list(ob.marg_prices); d = [y - x for x, y in zip(mp, mp[1:])]
        s = 1 if ask else -1
        noise = 1e-6 * max(map(abs, mp)) if mp else 0
        ctx.check("sim-book", all(s * x >= -max(noise, 1e-6 / (src[1] or 1)) for x in d), "slope", f"{'ask' if ask else 'bid'}: marginal prices {mp}")
        if len(mp) > 2:
            lo, hi = min(min(map(float, o.p_pair)) for o in os), max(max(map(float, o.p_pair)) for o in os)
            ctx.check("sim-book", all(lo * (1 - 1e-4) - 1e-6 / src[1] <= x <= hi * (1 + 1e-4) + 1e-6 / src[1] for x in mp), "range", f"marginal prices {mp} outside of {lo}..{hi}")
    ctx.cover("quotes", how, default, len(sells), len(buys)); ctx.run((how, default, base, tuple(str(o.y) for o in w.model.values())), len(w.model) > 1)


def same(a, b, rel=1e-9):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all((x != x and y != y) or close(x, y, rel, 0) or (abs(x - y) <= rel * 1e-3) for x, y in zip(a, b))


def books(ctx):
    rng = ctx.rng
    n = rng.randint(2, 30); ask = rng.random() < 0.5
    xs = np.cumsum([sig(rng, 1e-2, 1e2) for _ in range(n)])
    p = sig(rng, 1e-3, 1e4); ps = [p]
    kink = rng.random() < 0.25           # amounts that no optimal routing produces: the book still shows what follows from them
    for _ in range(n):
        up = ask if not kink or rng.random() < 0.7 else not ask
        ps.append(ps[-1] * (1 + rng.random() * 0.05) if up else ps[-1] / (1 + rng.random() * 0.05))
    ys, y, x0 = [], 0., 0.
    for x, q in zip(xs, ps): y += (x - x0) * q; x0 = x; ys.append(y)
    xs = [float(x) for x in xs]
    holes = {}
    trg = list(ys)
    if rng.random() < 0.5:
        for i in range(rng.randint(1, 3)): trg.append(rng.choice([None, float("nan")]))
        xs += [xs[-1] + i + 1. for i in range(len(trg) - n)]
    if n > 4 and rng.random() < 0.3:
        for i in rng.sample(range(1, n - 1), rng.randint(1, 2)): holes[i] = 1; trg[i] = rng.choice([None, float("nan")])
    conv = rng.choice([list, tuple, al.vec, lambda v: np.array(v, dtype=float), lambda v: (z for z in v)])
    src_in = rng.choice([list, al.vec, np.array])(xs)
    names = ("ETH", "USDC") if rng.random() < 0.8 else ()
    kw = dict(bidask=OB.ASK) if ask else dict(bidask=OB.BID)
    if ask and rng.random() < 0.5: kw = {}
    ctx.log(n, ask, sorted(holes), len(trg))
    ob = OB(src_in, conv(trg), *names, **kw)
    sn, tn = names or ("SRC", "TRG")
    wy = np.array([float("nan") if i in holes else v for i, v in enumerate(ys)]); wx = np.array(xs[:n])
    ctx.check("truncate", same(ob.src_amounts, wx) and same(ob.trg_amounts, wy), "aligned", f"{list(ob.src_amounts)} {list(ob.trg_amounts)} expected {wx} {wy}")
    s1, s2 = A.truncate(xs, trg); ctx.check("truncate", same(s1, wx) and same(s2, wy), "truncate", f"{s1} {list(s2)}")
    ctx.check("book", same(ob.prices, wy / wx) and same(ob.pricesr(), wx / wy) and same(ob.pricesr(False), wy / wx), "prices", f"{list(ob.prices)}")
    dx, dy = wx[1:] - wx[:-1], wy[1:] - wy[:-1]; mp = dy / dx
    ctx.check("marginal", same(ob.marg_src_amounts, dx) and same(ob.marg_trg_amounts, dy) and same(ob.marg_prices, mp) and same(ob.marg_pricesr(), 1 / mp) and same(ob.marg_pricesr(False), mp), "marginal", f"{list(ob.marg_prices)} expected {mp}")
    if not holes: ctx.check("marginal", all(close(a, b, 1e-6) for a, b in zip(ob.marg_prices, ps[1:])), "segment", "")
    sgn = 1 if ask else -1
    dmp = sgn * (mp[1:] - mp[:-1]); mid = (mp[1:] + mp[:-1]) / 2; mt = (dy[1:] + dy[:-1]) / 2
    ctx.check("liquidity", same(ob.dmarg_prices, dmp, 1e-6) and same(ob.ob_prices, mid) and all(abs(v) < 1e-9 * abs(mp[0]) or (v != v) or close(l, m / v, 1e-5, 0) for l, m, v in zip(ob.ob_liquidity, mt, dmp)), "depth", f"{list(ob.ob_liquidity)} expected {mt / dmp}")
    if not holes and n > 2 and (abs(dmp) > 1e-9 * mp[0]).all():
        ctx.close("liquidity", A.vecdot(ob.dmarg_prices, ob.ob_liquidity), mt.sum(), "area", 1e-6, 0, "")
        ctx.check("liquidity", kink or all(x >= 0 for x in ob.ob_liquidity), "sign", f"{list(ob.ob_liquidity)}")
    ctx.check("units", (ob.base_tkn, ob.quote_tkn, ob.src_tkn, ob.trg_tkn) == (sn, tn, sn, tn) and ob.prices_u == ob.marg_prices_u == ob.ob_prices_u == f"{tn} per {sn}" and ob.pricesr_u() == ob.marg_pricesr_u() == f"{sn} per {tn}" and ob.pricesr_u(False) == f"{tn} per {sn}" and ob.ob_liquidity_u == tn, "units", "")
    ctx.check("units", (ob.src_token_outin, ob.trg_token_outin, ob.amm_buysell_src, ob.amm_buysell_trg, ob.amm_bidask) == (("out", "in", "sells", "buys", "ask") if ask else ("in", "out", "buys", "sells", "bid")), "sides", "")
    e = ob.explain(); ctx.check("units", f"AMM {'sells' if ask else 'buys'} {sn} for {tn}" in e and ("ASK" if ask else "BID") in e and f"{tn} per {sn}" in e, "explain", e)
    d = ob.data_tokenamount_chart(); f = ob.data_tokenamount_chart(aspandas=True)
    ctx.check("frames", same(d["src"], wx) and same(d["x"], wx) and same(d["trg"], wy) and same(d["y"], wy) and (d["src_unit"], d["trg_unit"]) == (sn, tn) and list(f.columns) == [f"src_amt [{sn}]", f"trg_amt [{tn}]"] and same(f.iloc[:, 0], wx) and same(f.iloc[:, 1], wy), "tokenamount", f"{f}")
    for rev in (False, True):
        d = ob.data_price_chart(rev); f = ob.data_price_chart(reverse=rev, aspandas=True)
        e1, e2 = (wx / wy, 1 / mp) if rev else (wy / wx, mp); m = (wx[1:] + wx[:-1]) / 2; u = f"{sn} per {tn}" if rev else f"{tn} per {sn}"
        ctx.check("frames", same(d["size1"], wx) and same(d["price1_eff"], e1) and same(d["size2"], m) and same(d["price2_marg"], e2) and d["prices_unit"] == u and d["size_unit"] == sn and same(d["x1"], wx) and same(d["x2"], m) and same(d["y1"], e1) and same(d["y2"], e2) and d["ammm_buysell_src"] == ob.amm_buysell_src, "price", f"{d}")
        ctx.check("frames", list(f.columns) == [f"size1 [{sn}]", f"price1_eff [{u}]", f"size2 [{sn}]", f"price2_marg [{u}]"] and same(f.iloc[:, 0], wx) and same(f.iloc[:, 1], e1) and same(f.iloc[:len(m), 2], m) and same(f.iloc[:len(m), 3], e2), "price:frame", f"{f}")
    d = ob.data_orderbook_chart(); f = ob.data_orderbook_chart(aspandas=True)
    ctx.check("frames", same(d["prices"], mid) and same(d["y"], mid) and same(d["liquidity"], ob.ob_liquidity) and same(d["x"], ob.ob_liquidity) and (d["liquidity_unit"], d["prices_unit"]) == (tn, f"{tn} per {sn}") and list(f.columns) == [f"Price [{tn} per {sn}]", f"Liquidity [{tn}]"] and same(f.iloc[:, 0], mid), "orderbook", "")
    try: OB([1], [1], bidask="x"); ctx.check("book", False, "side:accepted", "")
    except ValueError: ctx.ev("book")
    # vectors
    v = al.vec(xs); u = al.vec([rng.choice([None, z]) for z in xs])
    ctx.check("vectors", same(al.diff(xs), np.diff(xs)) and same(al.midpoints(xs), [(a + b) / 2 for a, b in zip(xs, xs[1:])]) and same(ob.reverse(v), 1 / np.array(xs)) and same(ob.midpoints(v), al.midpoints(v)), "diff", "")
    ctx.close("vectors", al.vecdot(v, u), sum(a * b for a, b in zip(xs, u) if b == b and b is not None), "dot", 1e-9, 1e-9, "")
    m = sig(rng, 1, 1e4); k = rng.choice([None, 2, 7]); l = al.linspace0(m, *([] if k is None else [k])); k = k or 10
    ctx.check("vectors", len(l) == k + 1 and l[0] == A.EPSILON and close(l[k], m * (1 - A.EPSILON2), 1e-12) and same(list(l)[1:-1], [m * i / k for i in range(1, k)]), "linspace0", f"{list(l)}")
    l = A.linspace0(m, k, eps=0.5, eps2=0.25); ctx.check("vectors", l[0] == 0.5 and close(l[k], 0.75 * m), "linspace0:eps", "")
    z = al.linspace0(m, k, eps=0, eps2=0); ctx.check("vectors", same(z, [m * i / k for i in range(k + 1)]) and z[0] == 0 and z[len(z) - 1] == m, "linspace0:zero", f"{list(z)}")
    s1, s2 = al.truncate(xs[:3], rng.choice([[None] * 3, [float("nan")] * 2, []])); ctx.check("truncate", len(s1) == 0 and len(s2) == 0, "nothing", f"{s1} {s2}")
    ctx.check("vectors", same(al.linspace(1, m, k + 1), np.linspace(1, m, k + 1)), "linspace", "")
    ctx.check("vectors", [al.isnonenan(z) for z in (None, float("nan"), 0, 1., "x", np.nan)] == [True, True, False, False, False, True], "isnonenan", "")
    ctx.cover("books", ask, kink, min(n, 6), bool(holes), len(trg) > n); ctx.run((ask, tuple(xs), tuple(ys)), n > 2)


def approx(ctx):
    rng = ctx.rng
    base, quote = rng.choice([("ETH", "USDC"), ("USDC", "ETH"), ("BNT", "ETH")])
    P = CarbonPair(tknb=base, tknq=quote)
    w = World(ctx, "exact", pair=P)
    for _ in range(rng.choice([1, 2, 4])): w.random_strategy(rng, pairs=[(base, quote)])
    if rng.random() < 0.5: w.random_strategy(rng, pairs=[("WBTC", "USDC")])
    ou = w.sim.state()["orderuis"]
    os = [o for o in w.model.values() if {o.base, o.quote} == {base, quote} and not o.disabled]
    pr = [float(x) for o in os for x in o.p_pair]
    lo, hi = min(pr), max(pr)
    g = sorted([lo * rng.uniform(0.5, 1.1), hi * rng.uniform(0.9, 1.5)]); n = rng.choice([1, 2, 7, 40])
    grid = rng.choice([al.linspace(g[0], g[1], n + 1), list(np.linspace(g[0], g[1], n + 1)), [g[0] * (g[1] / g[0]) ** (i / n) for i in range(n + 1)]])
    rev = rng.random() < 0.5; purge = rng.random() < 0.5
    kw = {}
    if not rev or rng.random() < 0.5: kw["reverse"] = rev
    if not purge or rng.random() < 0.5: kw["purgezero"] = purge
    f = rng.choice([al.calc_liquidity_approx, OB.calc_liquidity_approx])
    l = quiet(f, ou, grid, P, **kw)
    ctx.log(base, quote, n, kw)
    ctx.check("approx", l["pair"] is P and l["price_u"] == f"{quote} per {base}" and l["liqtkn_u"] == (quote if rev else base) and l["reverse"] == rev, "units", f"{l['price_u']} {l['liqtkn_u']}")
    grid = [float(x) for x in grid]
    ctx.check("approx", same(l["prices"], [(a + b) / 2 for a, b in zip(grid, grid[1:])]), "prices", "")
    tot = {"ask": 0., "bid": 0.}
    for side, tkn in (("ask", base), ("bid", quote)):
        for i, (a, b) in enumerate(zip(grid, grid[1:])):
            want = 0.
            for o in os:
                if o.tkn != tkn: continue
                pl, ph = sorted(map(float, o.p_pair)); y = float(o.y)
                if ph / pl - 1 < 1e-9: ctx.skip("flat")
                c, d = max(a, pl), min(b, ph)
                if d <= c: continue
                v = y * (d - c) / (ph - pl); mid = math.sqrt(c * d)
                if rev and tkn == base: v *= mid
                if not rev and tkn == quote: v /= mid
                want += v / (b - a)
            got = l[side][i]
            if got is None: ctx.check("approx", purge and want < 1e-6, "zero", f"{side} bin {i}: None, expected {want}"); continue
            ctx.check("approx", not (purge and got == 0) and close(got, want, 1e-6, 1e-9 * max(1, float(sum(o.y for o in os)) / (b - a))), "depth", f"{side} {a}..{b}: {got} expected {want}")
    try: quiet(f, ou, grid, P.slashpair); ctx.check("approx", False, "accepted", "")
    except ValueError: ctx.ev("approx")
    if rng.random() < 0.1: OB.plot_approx_orderbook_chart(l); matplotlib.pyplot.close("all")
    ctx.cover("approx", rev, purge, n, len(os)); ctx.run((rev, purge, tuple(grid), tuple(str(o.y) for o in os)), len(os) > 1)


CASES = [("quotes", quotes, 120, 4000), ("books", books, 150, 6000), ("approx", approx, 80, 3000)]
