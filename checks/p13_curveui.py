from math import sqrt
from vlib.simlib import *
from carbon import CarbonOrderUI, CarbonPair

PID = "P13"
RULE = ("random curves (either token sold, narrow to very wide ranges, magnitudes 1e-6..1e6, empty/part/full, all constructors) evaluated at random "
        "and boundary points of every curve function and compared with an independent high-precision curve and with each other; distinct by "
        "(curve, points); non-trivial if the curve holds something")
ASSUME = ["tolerances scale with the conditioning of the floating point formulas (1e-9 relative in well-conditioned cases)",
          "prices between 1e-9 and 1e9"]
REQUIRED = ["marginal", "effective", "swap", "invariant", "inverse-price", "bounds", "constructors", "parameters", "approx", "virtual", "goalseek"]

E = CarbonOrderUI


def rand_curve(rng, fixed_ok=False):
    base, quote = rng.choice(PAIRS + [("LINK-12345", "USDC-6789")] * 2)
    mid = r_sig(rng, 1e-6, 1e6) if rng.random() < 0.7 else MID.get((base, quote), 50)
    tkn = rng.choice([base, quote])
    w = rng.choice([1e-4, 0.01, 0.1, 1, 10, 1000]) * rng.uniform(0.5, 1.5)
    if fixed_ok and rng.random() < 0.1: w = 0
    lo, hi = mid, mid * (1 + w)
    yint = r_sig(rng, 1e-4, 1e7)
    y = yint * rng.choice([1, 1, 0, rng.random(), rng.random(), 1e-4, 1 - 1e-4])
    pa, pb = (lo, hi) if tkn == base else (hi, lo)       # start, end in pair convention
    return base, quote, tkn, pa, pb, yint, y, w


def ref(base, quote, tkn, pa, pb, yint, y):
    a, b = D(pa), D(pb)
    if tkn == base: a, b = 1 / a, 1 / b
    return RefOrder(0, None, tkn, base, quote, b, a, D(y), D(yint))


def topair(c, p):
    return p if c[2] == c[1] else 1 / p


def raises(f, *types):
    try:
        f()
    except types as e:
        return e
    return None


def curve(ctx):
    rng = ctx.rng
    c = rand_curve(rng)
    base, quote, tkn, pa, pb, yint, y, w = c
    swap = rng.random() < 0.3
    o = E.from_prices(pair=f"{base}/{quote}", tkn=tkn, pa=pb if swap else pa, pb=pa if swap else pb, yint=yint, y=y)
    R = ref(*c[:-1])
    ctx.log("curve", c)
    cond = 1e-15 * (2 + 2 / w)                     # relative error of S, hence of everything that divides by S
    ctx.cover("curve", "base" if tkn == base else "quote", "w%g" % (round(w, 4) if w < .01 else round(w, 1) if w < 1 else int(w)) if False else "w<%g" % [x for x in (.001, .1, 1, 20, 1e9) if w < x][0],
              "full" if y == yint else "empty" if y == 0 else "part")
    rel = 1e-9
    # --- parameters of the curve
    ctx.close("parameters", o.pa, pa, "start-price", rel, 0, "start price"); ctx.close("parameters", o.pb, pb, "end-price", rel, 0, "end price")
    ctx.close("parameters", o.p_start, pa, "start-price", rel, 0); ctx.close("parameters", o.p_end, pb, "end-price", rel, 0)
    ctx.close("parameters", o.pmin, min(pa, pb), "pmin", rel, 0); ctx.close("parameters", o.pmax, max(pa, pb), "pmax", rel, 0)
    ctx.close("parameters", o.p0, sqrt(pa) * sqrt(pb), "p0", rel, 0); ctx.close("parameters", o.widthr, max(pa, pb) / min(pa, pb), "widthr", rel, 0)
    ctx.close("parameters", o.widthpc, (max(pa, pb) - min(pa, pb)) / (sqrt(pa) * sqrt(pb)), "widthpc", 1e-8 + 4 * cond, 0)
    ctx.close("parameters", o.pa_raw, float(R.ph), "pa_raw", rel, 0); ctx.close("parameters", o.pb_raw, float(R.pl), "pb_raw", rel, 0)
    xint = float(R.yint / (R.B * (R.B + R.S)))
    ctx.close("parameters", o.xint, xint, "xint", rel, 0)
    ctx.check("parameters", o.tknx == (quote if tkn == base else base) and o.tkny == tkn and o.total_liquidity == (y, tkn), "tokens", f"{o.tknx} {o.tkny} {o.total_liquidity}")
    q = float((R.pl / R.ph).sqrt()); gam = float(1 - D(q).sqrt())
    ctx.close("parameters", o.Q, q, "Q", rel, 0); ctx.close("parameters", o.Gamma, gam, "Gamma", rel + 8 * cond, 0)
    ctx.close("parameters", E.Q_from_Gamma(E.Gamma_from_Q(q)), q, "Q-Gamma", 1e-9 + cond, 0)
    ctx.close("parameters", o.y0 * E.int_over_0(o.Gamma), yint, "int_over_0", rel + 8 * cond, 0)
    ctx.close("parameters", o.x0 * E.int_over_0(o.Gamma), xint, "int_over_0", rel + 8 * cond, 0)
    ctx.close("parameters", o.p0_raw, float((R.pl * R.ph).sqrt()), "p0_raw", rel, 0)
    ctx.close("parameters", o.leverage_fctr, 1 / gam, "leverage", rel + 8 * cond, 0)
    ctx.close("parameters", o.kappa_bar ** 2, o.kappa, "kappa_bar", rel, 0)
    # --- marginal price as a function of the amount sold
    pts = [0, y] + [y * rng.random() for _ in range(3)]
    last = None
    for dy in sorted(pts):
        m = o.p_marg_f(dy)
        ctx.close("marginal", m, float(topair(c, R.pmarg(D(y) - D(dy)))), "marginal-price", rel, 0, f"p_marg_f({dy})")
        if last is not None:
            ctx.check("marginal", (m - last) * (1 if tkn == base else -1) >= -1e-12 * m, "marginal-monotone", f"{last} -> {m}")
        last = m
    ctx.close("marginal", o.p_marg, o.p_marg_f(0), "p_marg", 0, 0)
    ctx.close("marginal", o.p_marg_f(0, fullcurve=True), pa, "full-start", rel, 0); ctx.close("marginal", o.p_marg_f(yint, fullcurve=True), pb, "full-end", rel, 0)
    d = yint * rng.random()
    ctx.close("marginal", o.p_marg_f(d, fullcurve=True), float(topair(c, R.pmarg(D(yint) - D(d)))), "marginal-price-full", rel, 0)
    # --- trade functions
    for dy in [y] + [y * rng.random() for _ in range(3)]:
        if dy < 1e-9 * yint: continue
        dx = o.dxfromdy_f(dy)
        rdx = float(R.dx_of_dy(D(dy)))
        ctx.close("swap", dx, rdx, "dx-from-dy", rel, 0, f"dxfromdy_f({dy})")
        ctx.close("swap", o.dyfromdx_f(dx), dy, "dy-from-dx", rel, 0, f"dyfromdx_f({dx})")
        ctx.close("swap", o.xfromy_f(y - dy) - o.xfromy_f(y), dx, "swap-vs-invariant", rel, 1e-12 * xint)
        if dy > 1e-3 * yint:
            pe = o.p_eff_f(dy)
            ctx.close("effective", pe, float(topair(c, D(dy) / R.dx_of_dy(D(dy)))), "effective-price", 1e-8, 0, f"p_eff_f({dy})")
            lo, hi = sorted((o.p_marg, o.p_marg_f(dy)))
            ctx.check("effective", lo * (1 - 1e-8) <= pe <= hi * (1 + 1e-8), "effective-outside", f"{pe} not in [{lo},{hi}]")
    ctx.close("effective", o.p_eff_f(0), o.p_marg, "effective-at-0", rel, 0)
    d = yint * rng.uniform(0.01, 1)
    full = RefOrder(0, None, tkn, base, quote, R.pl, R.ph, D(yint), D(yint))
    ctx.close("effective", o.p_eff_f(0, fullcurve=True), pa, "effective-at-0-full", rel, 0)
    ctx.close("effective", o.p_eff_f(d, fullcurve=True), float(topair(c, D(d) / full.dx_of_dy(D(d)))), "effective-full", 1e-8, 0)
    # --- the invariant x(y), y(x)
    ctx.close("invariant", o.xfromy_f(yint), 0, "x-at-full", 0, 1e-12 * xint); ctx.close("invariant", o.xfromy_f(0), xint, "x-at-empty", rel, 0)
    ctx.close("invariant", o.yfromx_f(0), yint, "y-at-0", rel, 0)
    for _ in range(3):
        yy = yint * rng.random()
        x = o.xfromy_f(yy)
        ctx.close("invariant", x, float(full.dx_of_dy(D(yint) - D(yy))), "x-from-y", rel, 1e-13 * xint, f"xfromy_f({yy})")
        ctx.close("invariant", o.yfromx_f(x), yy, "y-from-x", 1e-8, 1e-10 * yint, f"yfromx_f({x})")
        if w > 1e-2:
            ctx.close("invariant", (x - o.xasym) * (yy - o.yasym), o.kappa, "kappa", 1e-9 + 40 * cond / min(1, w), 0)
    ctx.close("invariant", o.x, o.xfromy_f(y), "x", 0, 0)
    # --- y as a function of the marginal price
    for _ in range(3):
        ty = y * rng.random()
        p = float(topair(c, R.pmarg(D(ty))))
        if not min(o.p_marg, o.p_end) < p < max(o.p_marg, o.p_end): continue
        ctx.close("inverse-price", o.yfromp_f(p), ty, "y-from-p", 1e-9, yint * (1e-12 + 20 * cond), f"yfromp_f({p})")
        ctx.close("inverse-price", o.dyfromp_f(p), y - ty, "dy-from-p", 1e-9, yint * (1e-12 + 20 * cond), f"dyfromp_f({p})")
        ctx.close("inverse-price", o.p_marg_f(y - o.yfromp_f(p)), p, "p-of-y-of-p", 1e-9, 0)
    out_start = pa / (1 + 1e-3) if tkn == base else pa * (1 + 1e-3)
    out_end = pb * (1 + 1e-3) if tkn == base else pb / (1 + 1e-3)
    ctx.check("bounds", o.yfromp_f(out_start) is None and o.dyfromp_f(out_start) == 0, "beyond-start", "price before the start of the range")
    ctx.check("bounds", o.yfromp_f(out_end) == 0 and o.dyfromp_f(out_end) == y, "beyond-end", "price after the end of the range")
    ctx.check("bounds", raises(lambda: o.yfromp_f(out_start, raiseonerror=True), E.PriceOutOfBoundsErrorBeyondStart) is not None, "beyond-start-raise")
    ctx.check("bounds", raises(lambda: o.yfromp_f(out_end, raiseonerror=True), E.PriceOutOfBoundsErrorBeyondEnd) is not None, "beyond-end-raise")
    if y < 0.99 * yint and w > 1e-3:
        t = (y + yint) / 2
        p = float(topair(c, R.pmarg(D(t))))
        ctx.check("bounds", o.yfromp_f(p) is None and o.dyfromp_f(p) == 0, "beyond-marg", "price before the current marginal price")
        ctx.check("bounds", raises(lambda: o.yfromp_f(p, raiseonerror=True), E.PriceOutOfBoundsErrorBeyondMarg) is not None, "beyond-marg-raise")
        ctx.close("bounds", o.dyfromp_f(p, checkbounds=False), y - t, "dy-from-p-unchecked", 1e-9, yint * (1e-12 + 20 * cond))
        ctx.close("bounds", o.yfromp_f(p, checkbounds=False), t, "y-from-p-unchecked", 1e-9, yint * (1e-12 + 20 * cond))
    for f, bad in ((o.p_marg_f, [-yint * .1, y + yint * .1]), (o.p_eff_f, [-yint * .1, y + yint * .1]), (o.dxfromdy_f, [-yint * .1, y + yint * .1]),
                   (o.dyfromdx_f, [-xint * .1]), (o.xfromy_f, [-yint * .1, yint * 1.1]), (o.yfromx_f, [-xint * .1, xint * 1.1])):
        for v in bad:
            ctx.check("bounds", f(v) is None, "out-of-bounds-value", f"{f.__name__}({v}) = {f(v)}")
            ctx.check("bounds", raises(lambda: f(v, raiseonerror=True), ValueError) is not None, "out-of-bounds-raise", f"{f.__name__}({v}) did not raise")
    # --- goal seek finds marginal prices
    if y > 0 and w > 1e-2:
        t = y * rng.uniform(0.1, 0.9)
        p = o.p_marg_f(t)
        g = E.goalseek(lambda d: o.p_marg_f(d) - p, y * 1e-3, y)
        ctx.close("goalseek", g, t, "goalseek", 1e-5, 0)
    ctx.check("goalseek", raises(lambda: E.goalseek(lambda d: d + 1, 1, 2), ValueError) is not None, "goalseek-bracket")
    ctx.run(ctx.trail, y > 0)
    ctx.sample(ctx.trail)


def constructors(ctx):
    rng = ctx.rng
    c = rand_curve(rng, True)
    base, quote, tkn, pa, pb, yint, y, w = c
    ctx.log("ctor", c)
    pair = rng.choice([f"{base}/{quote}", CarbonPair(f"{base}/{quote}"), CarbonPair(tknb=base, tknq=quote)])
    o = E.from_prices(pair=pair, tkn=tkn.lower() if rng.random() < 0.1 else tkn, pa=pa, pb=pb, yint=yint, y=y)
    L = [("BSy", E.from_BSy(pair=pair, tkn=tkn.lower() if rng.random() < 0.1 else tkn, B=o.B, S=o.S, yint=yint, y=y)), ("copy", E.from_order(o))]
    if w > 0:
        L.append(("Qxy", E.from_Qxy(pair, tkn, o.Q, o.xint, yint, y)))
    # the same market quoted the other way round
    L.append(("reverse", E.from_prices(pair=f"{quote}/{base}", tkn=tkn, pa=1 / pa, pb=1 / pb, yint=yint, y=y)))
    for n, p in L:
        ctx.close("constructors", p.B, o.B, "B:" + n, 1e-9, 0); ctx.close("constructors", p.S, o.S, "S:" + n, 1e-9, 1e-12 * o.B)
        ctx.check("constructors", p.y == y and p.yint == yint and p.tkn == tkn and p.A == p.S and p.z == p.yint, "state:" + n, f"{p} vs {o}")
        f = (lambda v: 1 / v) if n == "reverse" else (lambda v: v)
        ctx.close("constructors", p.p_marg, f(o.p_marg), "p_marg:" + n, 1e-9, 0)
        ctx.close("constructors", p.pa, f(pa), "pa:" + n, 1e-9, 0); ctx.close("constructors", p.pb, f(pb), "pb:" + n, 1e-9, 0)
    # refused
    for bad in (dict(yint=-1), dict(y=yint * 1.01 + 1), dict(yint=0, y=rng.choice([1e-9, 5])), dict(y=yint * (1 + 1e-12) + 1e-30), dict(y=-1), dict(tkn="XYZ")):
        kw = {**dict(pair=pair, tkn=tkn, pa=pa, pb=pb, yint=yint, y=y), **bad}
        ctx.check("constructors", raises(lambda: E.from_prices(**kw), ValueError) is not None, "invalid-curve-accepted", str(bad))
    # a curve at a single price keeps its holdings until that price is reached
    f = E.from_prices(pair=pair, tkn=tkn, pa=pa, pb=pa, yint=yint, y=y)
    for ev in (False, True):
        ctx.close("inverse-price", f.yfromp_f(pa, checkbounds=ev and f.pa_raw == f.pb_raw == (pa if tkn == quote else 1 / pa)), y, "fixed:y", 0, 0, "holdings at the price")
        ctx.check("inverse-price", f.dyfromp_f(pa, checkbounds=False) == 0, "fixed:dy", "")
    # identifiers and links are set once
    i0 = rng.choice([0, "", 1, "a", (1,)])
    n1 = E.from_prices(pair=pair, tkn=tkn, pa=pa, pb=pb, yint=yint, y=y, id=rng.choice([None, i0]))
    if n1.id is None: ctx.check("constructors", n1.set_id(i0) is n1 and n1.id == i0, "set_id", "")
    ctx.check("constructors", raises(lambda: n1.set_id("other"), ValueError) is not None and n1.id == i0, "set_id:twice", f"{i0!r} -> {n1.id}")
    n2 = E.from_prices(pair=pair, tkn=quote if tkn == base else base, pa=pb, pb=pa, yint=yint, y=y, id="n2")
    ctx.check("constructors", n1.lid is None and n1.set_linked(n2) is n1 and n1.lid == "n2" and n2.lid is None, "set_linked", "")
    for again in (n2, n1, o): ctx.check("constructors", raises(lambda: n1.set_linked(again), ValueError) is not None and n1.linked is n2, "set_linked:twice", "")
    # curves grouped by pair and side; without capacity they have no effect on the groups
    dis = E.from_BSy(pair, tkn, 0, 0, 0, 0)
    grp = {"o": o, "n1": n1, "n2": n2, "dis": dis, "z": E.from_prices(pair="BNT/FOO", tkn="FOO", pa=1, pb=1, yint=0, y=0)}
    G = E.curves_by_pair_bidask(grp)
    ctx.check("constructors", set(G) == {f"{base}/{quote}", "BNT/FOO"} and all(len(v) == 3 for v in G.values()), "groups", f"{G}")
    g = G[f"{base}/{quote}"]; ids = lambda l: [id(v) for v in l]
    sell = [v for k, v in grp.items() if k != "z" and v.tkn == base]; buy = [v for k, v in grp.items() if k != "z" and v.tkn == quote]
    ctx.check("constructors", ids(g["ALL"]) == ids(v for k, v in grp.items() if k != "z") and ids(g["ASK"]) == ids(sell) and ids(g["BID"]) == ids(buy), "groups:side", f"{g}")
    # from a simulator order
    w_ = World(ctx, "exact", pair=f"{base}/{quote}")
    above = tkn == base
    r = w_.sim.add_order(tkn, y, pa, pb, pair=f"{base}/{quote}", y_int=yint) if False else None
    st = None
    s = w_.sim.add_strategy(tkn=tkn, amt_sell=y, psell_start=pa, psell_end=pb, amt_buy=0, pbuy_start=pb, pbuy_end=pb, y_int_sell=yint if w > 0 and y < yint else None)
    if s["success"]:
        i = list(s["orderuis"])[0]
        for src in (s["orderuis"][i], w_.sim.state()["orderuis"][i], E.from_order(w_.sim.orders[i])):
            ctx.close("constructors", src.pa, pa, "pa:order", 1e-9, 0); ctx.close("constructors", src.pb, pb, "pb:order", 1e-9, 0)
            ctx.close("constructors", src.y, y, "y:order", 1e-12, 0); ctx.close("constructors", src.yint, yint if w > 0 and y < yint else y, "yint:order", 1e-12, 0)
            ctx.check("constructors", src.tkn == tkn and src.id == i, "id:order", f"{src}")
    # virtual curve
    if w > 1e-3 and y > 1e-3 * yint:
        v = o.as_cpc
        base_sold = tkn == base
        cond = 1e-13 / w
        ctx.check("virtual", v.tknb == base and v.tknq == quote, "virtual-pair", f"{v.pair} vs {base}/{quote}")
        ctx.close("virtual", v.p, o.p_marg, "virtual-price", 1e-9, 0, "price of the virtual curve")
        ctx.close("virtual", v.x_act if base_sold else v.y_act, y, "virtual-holdings", 1e-7 + 100 * cond, 0, "holdings of the virtual curve")
        oth = v.y_act if base_sold else v.x_act
        ctx.close("virtual", oth, 0, "virtual-other", 0, (1e-9 + 10 * cond) * (v.y if base_sold else v.x), "the virtual curve holds the other token")
        dy = y * rng.uniform(0.05, 0.95)
        dx = o.dxfromdy_f(dy)
        got = v.dyfromdx_f(-dy) if base_sold else v.dxfromdy_f(-dy)
        ctx.close("virtual", got, dx, "virtual-trade", 1e-7 + 1000 * cond, 0, f"trade of {dy} on the virtual curve")
    # approximate liquidity in a price window
    n, m = sorted((min(pa, pb) * r_sig(rng, 0.1, 3), max(pa, pb) * r_sig(rng, 0.3, 10)))
    k = rng.uniform(n, m)
    perc = lambda a, b: o.liquidity_approx(a, b, asperc=True)
    ctx.check("approx", 0 <= perc(n, m) <= 1 + 1e-12, "approx-range", f"{perc(n, m)}")
    ctx.close("approx", perc(m, n), perc(n, m), "approx-order", 0, 0)
    ctx.close("approx", perc(n, k) + perc(k, m), perc(n, m), "approx-additive", 1e-9, 1e-9, f"[{n},{k},{m}]")
    ctx.close("approx", perc(min(pa, pb) / 1.5, max(pa, pb) * 1.5), 1, "approx-full", 1e-9, 0)
    ctx.close("approx", perc(max(pa, pb) * 1.1, max(pa, pb) * 2), 0, "approx-above", 0, 0); ctx.close("approx", perc(min(pa, pb) / 2, min(pa, pb) / 1.1), 0, "approx-below", 0, 0)
    lo, hi = min(pa, pb), max(pa, pb)
    if w > 0:
        a, b = max(n, lo), min(m, hi)
        ctx.close("approx", perc(n, m), max(0, b - a) / (hi - lo), "approx-share", 1e-7, 1e-9 / w if w < 1 else 1e-9)
    oth = quote if tkn == base else base
    L = o.liquidity_approx(n, m, tkn=tkn); L2 = o.liquidity_approx(n, m, tkn=oth)
    ctx.close("approx", L, y * perc(n, m), "approx-amount", 1e-9, 0)
    if L > 0:
        pr = L2 / L if tkn == base else L / L2
        ctx.check("approx", max(n, lo) * (1 - 1e-9) <= pr <= min(m, hi) * (1 + 1e-9), "approx-conversion", f"converted at {pr} outside of window")
    ctx.close("approx", o.liquidity_approx(n, m), L if tkn == base else L2, "approx-default-token", 1e-12, 0)
    ctx.run(ctx.trail, y > 0)


DIRECTED = []
CASES = [("curve", curve, 2500, 150000), ("constructors", constructors, 1000, 60000)]
