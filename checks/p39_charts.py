"""the charts draw the numbers they are given (lines, markers, shaded ranges, labels read back from matplotlib's Agg canvas)"""
import math
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
import numpy as np, pandas as pd
from vlib.core import close
from vlib.cpclib import quiet, sig, rand_curve
import carbon
from carbon.simulators import sim_analytics as al
from carbon.simulators.sim_analytics import OrderBook as OB
from carbon import CarbonPair, CarbonSimulatorUI
from carbon.helpers.simulation import run_sim, plot_sim, SIM_DEFAULT_PARAMS
from carbon.helpers.pathgenerator import PathGenerator
from carbon.tools.cpc import CPCContainer
from carbon.tools.optimizer import CPCArbOptimizer
from carbon.tools import arbgraphs as ag
from checks.p15_runsim import rand_path, rand_strat

PID = "P39"
RULE = ("random order books, simulations, curve containers, transport graphs and price paths plotted with random parameters on a fresh canvas; everything drawn is read back from the axes; "
        "distinct by inputs; non-trivial if at least two lines or markers are drawn")
ASSUME = ["matplotlib draws what its artists hold", "the numbers themselves are judged by other properties (P15, P18, P25, P29)", "styles, texts and layouts are not specified beyond token names and values"]
REQUIRED = ["obchart", "obdata", "approx", "sim-lines", "sim-sides", "sim-values", "curves", "markers", "labels", "graph", "path", "untouched"]
COLLECT = 20
plt.show = lambda *a, **k: None


def seq(v): return [float("nan") if x is None else float(x) for x in v]


def same(a, b, rel=1e-9):
    a, b = seq(a), seq(b)
    return len(a) == len(b) and all((x != x and y != y) or close(x, y, rel, 0) for x, y in zip(a, b))


def lines(ax): return [(seq(l.get_xdata()), seq(l.get_ydata()), l) for l in ax.get_lines()]


def has(ax, x, y):
    return any(same(a, x) and same(b, y) for a, b, _ in lines(ax))


def orderbook(ctx):
    rng = ctx.rng
    def book(ask):
        n = rng.randint(4, 25); xs = np.cumsum([sig(rng, 1e-2, 1e2) for _ in range(n)]); p = sig(rng, 1e-3, 1e4); ys = []; y = x0 = 0.
        for x in xs: y += (x - x0) * p; x0 = x; ys.append(y); p *= 1 + rng.uniform(0.001, 0.05) * (1 if ask else -1)
        return OB(list(map(float, xs)), ys, "ETH", "USDC", bidask=OB.ASK if ask else OB.BID), np.array(xs), np.array(ys)
    ask = rng.random() < .5; ob, xs, ys = book(ask)
    def axes():
        plt.close("all"); plt.figure(); return plt.gca()
    try:
        ax = axes(); quiet(ob.plot_tokenamount_chart)
        ctx.check("obchart", len(ax.get_lines()) == 1 and has(ax, xs, ys) and "ETH" in ax.get_xlabel() and "USDC" in ax.get_ylabel() and ("sells ETH" in ax.get_title()) == ask, "amounts", ax.get_title())
        mp = np.diff(ys) / np.diff(xs); mx = (xs[1:] + xs[:-1]) / 2
        for rev in (None, False, True):
            ax = axes(); quiet(ob.plot_price_chart, *([] if rev is None else [rev])); e1, e2 = (xs / ys, 1 / mp) if rev else (ys / xs, mp)
            L = {l.get_label(): (x, y) for x, y, l in lines(ax)}
            ctx.check("obchart", set(L) == {"effective price", "marginal price"} and same(L["effective price"][0], xs) and same(L["effective price"][1], e1) and same(L["marginal price"][0], mx) and same(L["marginal price"][1], e2, 1e-7), "prices", f"{rev} {L}")
            ctx.check("labels", ("ETH per USDC" if rev else "USDC per ETH") in ax.get_ylabel() and "ETH" in ax.get_xlabel() and ("sells" in ax.get_xlabel()) == ask, "price-units", f"{ax.get_ylabel()} {ax.get_xlabel()}")
        ax = axes(); quiet(ob.plot_price_charto); ctx.check("obchart", has(ax, xs, ob.prices) and has(ax, mx, ob.marg_prices), "prices", "")
        other = book(not ask)[0] if rng.random() < .6 else None; kw = {}
        if other: kw["otherob"] = other
        if rng.random() < .5: kw.update(xmin=float(ob.ob_prices.min()), xmax=float(ob.ob_prices.max()) * 2, ymax=sig(rng, 1, 1e6))
        ax = axes(); quiet(ob.plot_orderbook_chart, **kw); L = lines(ax)
        for o in [ob] + ([other] if other else []):
            k = [l for x, y, l in L if same(x, o.ob_prices) and same(y, o.ob_liquidity)]
            ctx.check("obdata", len(k) == 1 and k[0].get_label() == o.amm_bidask and to_rgba(k[0].get_color()) == to_rgba("g" if o.bidask == OB.BID else "r"), "book", f"{o.bidask} {len(k)}")
        ctx.check("obdata", len(L) == 1 + bool(other) and "USDC per ETH" in ax.get_xlabel() and "USDC" in ax.get_ylabel(), "book-lines", "")
        if "xmin" in kw: ctx.check("obdata", same(ax.get_xlim(), (kw["xmin"], kw["xmax"])) and same(ax.get_ylim(), (0, kw["ymax"])), "limits", f"{ax.get_xlim()} {ax.get_ylim()}")
        l = dict(pair=CarbonPair("ETH/USDC") if rng.random() < .5 else CarbonPair("BNT/ETH"), price_u="Q per B", liqtkn_u="LIQ", prices=list(map(float, xs)), bid=[rng.choice([None, sig(rng, 1, 9)]) for _ in xs], ask=[rng.choice([None, 0, sig(rng, 1, 9)]) for _ in xs])
        ax = axes(); quiet(OB.plot_approx_orderbook_chart, l); L = {a.get_label(): (x, y, a) for x, y, a in lines(ax)}
        ctx.check("approx", set(L) == {"bid", "ask"} and all(same(L[s][0], xs) and same(L[s][1], l[s]) for s in L) and to_rgba(L["bid"][2].get_color()) == to_rgba("g") and to_rgba(L["ask"][2].get_color()) == to_rgba("r"), "approx", f"{L}")
        ctx.check("approx", "Q per B" in ax.get_xlabel() and "LIQ" in ax.get_ylabel() and l["pair"].tknb in ax.get_title() and l["pair"].tknq in ax.get_title(), "approx-units", "")
        ctx.run(("ob", ask, repr(list(xs)), sorted(kw)), True)
    finally: plt.close("all")


def num(x): return [matplotlib.dates.date2num(v) if isinstance(v, pd.Timestamp) else float(v) for v in x]


def sim(ctx):
    rng = ctx.rng
    try:
        path, kind = rand_path(rng, 100.0, n=rng.randint(3, 15))
        if kind == "plateau" or (path <= 0).any(): pass
        S = [rand_strat(rng, csh="USDC", rsk="ETH") for _ in range(rng.choice([1, 1, 2, 3]))]
        path.index = pd.date_range("2021-01-01", periods=len(path), freq=rng.choice(["D", "H"]))
        r = quiet(run_sim, S if len(S) > 1 or rng.random() < .5 else S[0], path)
        r0 = r
        if rng.random() < .4: r0 = quiet(run_sim, S, path.iloc[::2])
        keys = list(SIM_DEFAULT_PARAMS.params); P = {k: rng.random() < .5 for k in keys if rng.random() < .6}
        full = dict(SIM_DEFAULT_PARAMS.params, **P); before = dict(SIM_DEFAULT_PARAMS.params)
        form = rng.choice(["dict", "Params", "None"])
        if form == "None": arg, full = None, dict(SIM_DEFAULT_PARAMS.params)
        else: arg = P if form == "dict" else type(SIM_DEFAULT_PARAMS)(**P)
        if not any(full[k] for k in ("plotPrice", "plotValueHODL", "plotValueCsh", "plotValueRsk", "plotValueTotal", "plotMargP")): return ctx.skip()
        pair = rng.choice([None, None, ("AAA", "BBB")]); col = {}
        if rng.random() < .3: col = dict(price="black", bid="navy")
        ctx.log(len(S), len(path), repr(full), form, pair, col)
        plt.close("all")
        kw = {}
        if pair: kw["pair"] = pair
        if col: kw["colors"] = rng.choice([col, {"darkmode": col, "lightmode": col}])
        keep = [np.array(v, dtype=float).copy() for v in (r.rskamt_r, r.cshamt_r, r.value_r, r.hodl_r, r.spot_r)]
        try: quiet(plot_sim, r, r0, "DATAID", arg, **kw)
        except ValueError:
            if not any(full[k] for k in ("plotPrice", "plotValueHODL", "plotValueCsh", "plotValueRsk", "plotValueTotal")): return ctx.skip()
            raise
        ctx.check("untouched", all(np.array_equal(a, np.array(b, dtype=float), equal_nan=True) for a, b in zip(keep, (r.rskamt_r, r.cshamt_r, r.value_r, r.hodl_r, r.spot_r))) and dict(SIM_DEFAULT_PARAMS.params) == before, "results-changed", "")
        ax1, ax2 = plt.gcf().axes
        def lab(ax, text): return [l for l in ax.get_lines() if text in str(l.get_label())]
        def dat(l): return num(pd.to_datetime(l.get_xdata())) if not isinstance(l.get_xdata()[0], float) else list(l.get_xdata()), seq(l.get_ydata())
        T, T0 = num(path.index), num(r0.spot_r.index)
        def eq(l, x, y, what, mon="sim-lines"):
            a, b = dat(l); ctx.check(mon, len(a) == len(x) and all(abs(p - q) < 1e-6 for p, q in zip(a, x)) and same(b, y), what, f"{b[:3]} expected {seq(y)[:3]}")
        n1 = n2 = 0; inter = r0 is not r and full["plotInterpolated"]
        if full["plotPrice"]:
            L = lab(ax1, "price"); ctx.check("sim-lines", len(L) == 1, "price-line", f"{len(L)}"); eq(L[0], T0, r0.spot_r, "price"); n1 += 1 + inter
            ctx.check("labels", to_rgba(L[0].get_color(), 1) == to_rgba(col.get("price", "darkorange"), 1), "colors", f"{L[0].get_color()}")
            if inter: ctx.check("sim-lines", any(len(l.get_xdata()) == len(T) and same(l.get_ydata(), path) for l in ax1.get_lines()), "interpolated-price", "")
        else: ctx.check("sim-lines", not lab(ax1, "price"), "price-line", "")
        ctx.check("sim-lines", len(ax1.collections) == (len(S) * (full["plotBid"] + full["plotAsk"]) if full["plotRanges"] else 0), "ranges", f"{len(ax1.collections)}")
        st = r.strat if isinstance(r.strat, (list, tuple)) else [r.strat]
        if full["plotRanges"]:
            Y = [(float(v[:, 1].min()), float(v[:, 1].max())) for c in ax1.collections for v in [c.get_paths()[0].vertices]]
            X = [(s.p_buy_b, s.p_buy_a) for s in st if full["plotBid"]] + [(s.p_sell_a, s.p_sell_b) for s in st if full["plotAsk"]]
            ctx.check("sim-sides", all(close(a, b) for p, q in zip(sorted(Y), sorted(X)) for a, b in zip(p, q)), "shaded-range", f"{sorted(Y)} {sorted(X)}")
            for c in ax1.collections:
                v = c.get_paths()[0].vertices[:, 1]; side = "bid" if "bid" in c.get_label() else "ask"
                ok = any(close(v.min(), min(a, b)) and close(v.max(), max(a, b)) for a, b in [((s.p_buy_a, s.p_buy_b) if side == "bid" else (s.p_sell_a, s.p_sell_b)) for s in st])
                ctx.check("sim-sides", ok and to_rgba(c.get_facecolor()[0], 1) == to_rgba("lightgreen" if side == "bid" else "lightcoral", 1), "shaded-side", f"{side} {v.min()} {v.max()}")
        if full["plotMargP"]:
            # a bid can only stand inside the strategy's buy range, an ask inside its sell range
            for on, cname, rngs, lbl in ((full["plotBid"], col.get("bid", "green"), [(s.p_buy_b, s.p_buy_a) for s in st], "bid [lhs]"), (full["plotAsk"], "red", [(s.p_sell_a, s.p_sell_b) for s in st], "ask [lhs]")):
                L = [l for l in ax1.get_lines() if to_rgba(l.get_color(), 1) == to_rgba(cname, 1) and l.get_linestyle() == ":"]
                ctx.check("sim-sides", len(L) == (len(S) if on else 0) and len(lab(ax1, lbl)) == (1 if on else 0), "marginal-lines", f"{len(L)} {on} {lbl}")
                n1 += len(L)
                for l, (lo, hi) in zip(L, rngs):
                    y = seq(l.get_ydata()); ctx.check("sim-sides", all(v != v or lo * (1 - 1e-6) <= v <= hi * (1 + 1e-6) for v in y) and len(y) == len(path), "marginal-side", f"{lbl} {y[:3]} outside {lo}..{hi}")
        ctx.check("sim-lines", len(ax1.get_lines()) == n1, "lines-left", f"{len(ax1.get_lines())} expected {n1}")
        c, k = pair[::-1] if pair else ("USDC", "ETH")
        for key, text, x, y in (("plotValueHODL", "HODL", T, r.hodl_r), ("plotValueCsh", f"{c} portion", T, r.cshamt_r), ("plotValueRsk", f"{k} portion", T, np.array(r.rskamt_r) * np.array(path)), ("plotValueTotal", "portfolio value", T0, r0.value_r)):
            L = lab(ax2, text); e = (1 + (inter if key == "plotValueTotal" else 0)) if full[key] else 0
            ctx.check("sim-values", len(L) == e, "value-lines", f"{key} {len(L)} expected {e}"); n2 += e
            if L: eq(L[0], x, y, key, "sim-values")
            if len(L) == 2: eq(L[1], T, r.value_r, key, "sim-values")
        if full["plotValue0"]: n2 += 1; v0 = float(r.value_r.iloc[0]); ctx.check("sim-values", any(same(l.get_ydata(), [v0] * len(T)) and len(l.get_ydata()) == len(T) for l in ax2.get_lines()), "value0", "")
        ctx.check("sim-values", len(ax2.get_lines()) == n2, "lines-right", f"{len(ax2.get_lines())} expected {n2}")
        ctx.check("labels", f"({c})" in ax2.get_ylabel() and f"{c} per {k}" in ax1.get_ylabel(), "axis-units", f"{ax1.get_ylabel()} {ax2.get_ylabel()}")
        t = plt.gcf().axes[0].get_title() + plt.gcf().axes[1].get_title()
        ctx.check("labels", "DATAID" in t and f"{max(s.p_buy_a for s in st):.1f}" in t and f"{min(s.p_buy_b for s in st):.1f}" in t and f"{min(s.p_sell_a for s in st):.1f}" in t and f"{max(s.p_sell_b for s in st):.1f}" in t and f"{sum(s.amt_csh for s in st):.0f} {c}" in t and f"{sum(s.amt_rsk for s in st):.1f} {k}" in t, "title", t)
        ctx.cover(f"{len(S)}|{form}|{inter}|{pair is None}|{bool(col)}"); ctx.run(("s", repr(list(path)), repr(full)), n1 + n2 > 1)
    finally: plt.close("all")


def curves(ctx):
    rng = ctx.rng
    try:
        pr = rng.choice(["WETH-6Cc2/USDC-eB48", "ETH/USDC", "LINK/ETH"]); n = rng.randint(1, 5); two = rng.random() < .5
        cs = []
        for i in range(n):
            p_ = pr if not two or rng.random() < .6 else "/".join(pr.split("/")[::-1])
            c = rand_curve(rng, p_, cid=f"cid{i}")
            cs.append(c[0] if isinstance(c, tuple) else c)
        for c in cs: c.params["exchange"] = "ex"
        oth = rand_curve(rng, "ZZZ/YYY"); oth = oth[0] if isinstance(oth, tuple) else oth
        CC = CPCContainer(cs + [oth])
        have = sorted({c.pair for c in cs}); ask = rng.choice(have); directed = rng.random() < .5
        use = [c for c in cs if c.pair == ask] + ([] if directed else [c for c in cs if c.pair != ask])
        npts = rng.choice([20, 500, 57]); prm = dict(show=False, npoints=npts)
        if rng.random() < .4: prm["xlim"] = (0.0, 3.0); prm["ylim"] = (0.0, 7.0)
        if rng.random() < .3: prm["title"] = "T {c.pair}"
        if rng.random() < .3: prm["label"] = "L{c.cid}"
        if rng.random() < .3: prm["legend"] = False
        ctx.log(ask, directed, n, prm)
        plt.close("all"); plt.figure(); f = CPCArbOptimizer(CC).plot if rng.random() < .3 else CC.plot
        full = CC.PLOTPARAMS.params.copy()
        quiet(f, pairs=rng.choice([ask, [ask], {ask}]), **(dict(directed=True) if directed else {}), params=prm)
        ctx.check("untouched", CC.PLOTPARAMS.params == full, "defaults-changed", "")
        ax = plt.gca(); L = lines(ax); M = [(x[0], y[0], l) for x, y, l in L if len(x) == 1]; R = [(x, y, l) for x, y, l in L if len(x) > 1]
        ctx.check("curves", len(R) == 2 * len(use) and len(M) == len(use), "count", f"{len(R)} {len(M)} for {len(use)} curves")
        ctx.check("markers", sorted(round(math.log(x), 9) for x, y, l in M) == sorted(round(math.log(c.x), 9) for c in use), "markers", "")
        for c in use:
            m = [l for x, y, l in M if close(x, c.x) and close(y, c.y)]; ctx.check("markers", len(m) >= 1, "marker", f"{c.x} {c.y}")
            want = f"L{c.cid}" if "label" in prm else f"[{c.cid}-ex]: p={c.p:.1f}, 1/p={1 / c.p:.1f}, k={c.k:.1f}"
            ctx.check("labels", any(l.get_label() == want for l in m), "curve-label", f"{want} {[l.get_label() for l in m]}")
            fl = [(x, y) for x, y, l in R if not any(v != v for v in y) and same(y, [c.k / v for v in x], 1e-9)]
            ctx.check("curves", len(fl) >= 1 and len(fl[0][0]) == npts, "full-curve", c.cid)
            mx = max(k.x for k in use if k.pair == c.pair)
            ctx.check("curves", any(max(x) >= mx and min(x) <= 1e-3 * mx + 1e-6 for x, y in fl), "span", f"{max(fl[0][0])} {mx}")
            inr = lambda v: None if close(c.k / v, c.y_min or 0, 1e-6) or (c.y_max is not None and close(c.k / v, c.y_max, 1e-6)) else (c.y_min is None or c.k / v >= c.y_min) and (c.y_max is None or c.k / v <= c.y_max)
            def ranged(x, y):
                return all((inr(a) is None) or (close(b, c.k / a) if inr(a) else b != b) for a, b in zip(x, y))
            ctx.check("curves", sum(ranged(x, y) for x, y, l in R) >= 1, "range-curve", c.cid)
        last = [c for c in use][-1]
        ttl = ax.get_title(); ctx.check("labels", any(ttl == (f"T {c.pair}" if "title" in prm else c.pairp) and ax.get_xlabel() == c.tknxp and ax.get_ylabel() == c.tknyp for c in use), "axes", f"{ttl} {ax.get_xlabel()} {ax.get_ylabel()}")
        if "xlim" in prm: ctx.check("labels", same(ax.get_xlim(), (0, 3)) and same(ax.get_ylim(), (0, 7)), "limits", "")
        else: ctx.check("labels", any(close(ax.get_ylim()[1], 2 * max(k.y for k in use if k.pair == c.pair)) for c in use), "y-limit", f"{ax.get_ylim()}")
        ctx.check("labels", (ax.get_legend() is not None) == prm.get("legend", True), "legend", "")
        ctx.run(("c", ask, directed, repr([(c.k, c.x) for c in cs]), repr(prm)), len(use) > 0)
    finally: plt.close("all")


def graph(ctx):
    rng = ctx.rng
    try:
        T = rng.sample(["ETH", "USDC", "LINK", "BNT", "UNI"], rng.randint(2, 5)); G = ag.ArbGraph(); E = {}; typ = rng.choice(["amount", "price"])
        for _ in range(rng.randint(2, 8)):
            a, b = rng.sample(T, 2)
            if (a, b) in E: continue
            if typ == "amount": v = (round(sig(rng, 1, 9), 3), round(sig(rng, 1, 9), 3)); quiet(G.add_edge, a, v[0], b, v[1])
            else: v = sig(rng, 1, 9); quiet(G.add_edge_connectiontype, a, b, price_outperin=v, symmetric=False)
            E[(a, b)] = v
        if len({t for e in E for t in e}) < 2: return ctx.skip()
        kw = {k: rng.random() < .5 for k in ("directed", "labels", "edge_labels", "rnone") if rng.random() < .6}; kw["show"] = False
        directed, labels, elab = kw.get("directed", True), kw.get("labels", True), kw.get("edge_labels", False)
        ctx.log(repr(E), repr(kw)); n0 = (len(G.nodes), len(G.edges))
        plt.close("all"); plt.figure(); r = quiet(G.plot, **kw); ax = plt.gcf().axes[0]
        ctx.check("graph", r is (None if kw.get("rnone") else G) and (len(G.nodes), len(G.edges)) == n0, "result", f"{r}")
        used = sorted({t for e in E for t in e}); txt = [t.get_text() for t in ax.texts]
        names = sorted(str(n) for n in G.nodes); ctx.check("graph", sorted(n.tkn for n in G.nodes) == used, "nodes", "")
        want = names if labels else []; rest = list(txt)
        for n in want:
            ctx.check("graph", n in rest, "node-label", f"{n} {txt}"); rest.remove(n)
        ctx.check("graph", all(any(t in n for n in names) for t in used), "node-names", f"{names}")
        ne = len(E) if directed else len({tuple(sorted(e)) for e in E})
        if elab and (directed and not any((b, a) in E for a, b in E)):
            ctx.check("graph", len(rest) == ne, "edge-labels", f"{rest}")
            for (a, b), v in E.items():
                ctx.check("graph", any((str(v[0]) in t and str(v[1]) in t) if typ == "amount" else str(v) in t for t in rest), "edge-label", f"{v} {rest}")
        elif not elab: ctx.check("graph", not rest, "edge-labels", f"{rest}")
        sc = [c for c in ax.collections if hasattr(c, "get_sizes") and len(c.get_offsets())]
        ctx.check("graph", sum(len(c.get_offsets()) for c in sc) == len(used), "node-markers", "")
        seg = len(ax.patches) + sum(len(c.get_segments()) for c in ax.collections if hasattr(c, "get_segments"))
        ctx.check("graph", seg == ne, "edges", f"{seg} drawn, {ne} expected")
        ctx.cover(f"{typ}|{sorted(kw.items())}"); ctx.run(("g", repr(E), repr(kw)), ne > 1)
    finally: plt.close("all")


def paths(ctx):
    rng = ctx.rng
    try:
        plt.close("all"); plt.figure()
        g = quiet(PathGenerator, mu=rng.random(), sig=rng.uniform(.1, 1), s0=sig(rng, 1, 1e3), time=rng.uniform(.1, 3), N=rng.randint(2, 50))
        p = quiet(g.path, plot=True); ax = plt.gca()
        ctx.check("path", len(ax.get_lines()) == 1 and same(ax.get_lines()[0].get_ydata(), p) and len(p) == g.N + 1 and close(p[0], g.s0), "path-line", "")
        x = num(pd.to_datetime(list(ax.get_lines()[0].get_xdata())))
        ctx.check("path", close(x[0], matplotlib.dates.date2num(pd.Timestamp("2020-01-01"))) and close(x[-1] - x[0], g.time * 365.25, 1e-6, 1e-4), "path-dates", f"{x[0]} {x[-1]} {g.time}")
        plt.figure(); p = quiet(g.path); ctx.check("path", not plt.gca().get_lines(), "path-unasked", "")
        ctx.run(("p", repr(list(p))), True)
    finally: plt.close("all")


CASES = [("orderbook", orderbook, 60, 900), ("sim", sim, 120, 1800), ("curves", curves, 80, 1200), ("graph", graph, 80, 1200), ("paths", paths, 30, 300)]
