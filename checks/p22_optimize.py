"""arbitrage optimizers: marginal price, single pair, convex"""
from vlib.cpclib import *
import os, shutil, tempfile
import numpy as np, pandas as pd
from carbon.tools import tokenscale as TS
from carbon.tools.optimizer import CPCArbOptimizer as OPT, OptimizerBase as BASE

PID = "P22"
RULE = ("random token graphs (2 to 6 tokens, several curves per pair in both directions, unlevered, ranged, uniswap v3 and carbon orders, prices with and without "
        "arbitrage between them) given to each optimizer for every target token, from own and from given starting prices; every result that is not an error is "
        "checked against a certificate of optimality (each curve at the common price or at the end of its range, all other tokens net to zero); distinct by "
        "problem and target; non-trivial if some trade is proposed")
ASSUME = ["net flows vanish up to 1e-5 of the virtual holdings (margp, the step at which it stops), 1e-8 (single pair), 1e-6 (convex, ECOS)",
          "convex results are judged for curves of similar size with the ECOS solver (CVXOPT is not installed); ECOS may stop before full accuracy",
          "marginal price optimizer must find a solution for unlevered curves of similar size (up to 1:100); for ranged curves an error result is accepted"]
REQUIRED = ["constraints", "certificate", "selffinancing", "result", "liveness", "again", "formats", "metamorphic", "simple", "convex", "helpers", "untouched"]


def market(rng, ntok, spread, kinds, direct=None, scale=(1e-3, 1e3), size=(1e2, 1e6)):
    toks = rng.sample(TOKENS, ntok)
    true = {t: sig(rng, *scale) for t in toks}
    cs = []
    def add(a, b):
        p = true[a] / true[b] * math.exp(rng.gauss(0, spread))
        kind = rng.choice(kinds)
        cid = f"c{len(cs)}"
        if kind == "unlev":
            cs.append(CPC.from_px(p=p, x=sig(rng, *size) / true[a], pair=f"{a}/{b}", cid=cid))
        elif kind in ("wide", "narrow"):
            w = rng.choice([0.5, 3, 100] if kind == "wide" else [0.01, 0.1])
            k = (sig(rng, *size) / math.sqrt(true[a] * true[b])) ** 2
            lo, hi = p / (1 + w * rng.uniform(0.2, 1)), p * (1 + w * rng.uniform(0.2, 1))
            if rng.random() < 0.5: cs.append(CPC.from_pkpp(p=p, k=k, p_min=lo, p_max=hi, pair=f"{a}/{b}", cid=cid))
            else: cs.append(CPC.from_univ3(Pmarg=p, uniL=math.sqrt(k), uniPa=lo, uniPb=hi, pair=f"{a}/{b}", cid=cid, fee=0, descr="v3"))
        elif kind == "carbon":
            tkny = rng.choice([a, b])
            q = p if tkny == b else 1 / p                # dy/dx
            w = rng.choice([0.01, 0.3, 2])
            pb = q * math.exp(rng.choice([-1, -1, 0.3, 1]) * rng.uniform(0, 0.05)); pa = pb * (1 + w)
            yint = sig(rng, *size) / true[tkny]
            cs.append(CPC.from_carbon(yint=yint, y=yint * rng.choice([1, 1, 0.5, rng.random(), rng.choice([0, 1])]), pa=pa, pb=pb, pair=f"{a}/{b}", tkny=tkny, cid=cid, fee=0, descr="carbon", isdydx=True))
    many = rng.choice([1, 1, 1, 1, 3])
    for i in range(1, ntok):
        j = rng.randrange(i) if direct is None and rng.random() < 0.3 else 0
        for _ in range(rng.choice([1, 2, 3]) * many):
            add(*((toks[i], toks[j]) if rng.random() < 0.5 else (toks[j], toks[i])))
    for _ in range(rng.choice([0, 1, 3])):
        add(*rng.sample(toks, 2))
    if rng.random() < 0.2:                               # two identical pools
        c = rng.choice(cs)
        cs.append(CPC.from_kx(k=c.k, x=c.x, x_act=c.x_act, y_act=c.y_act, pair=c.pair, cid=f"c{len(cs)}", fee=0, descr=c.descr, params=c.params) if rng.random() < 0.5 else
                  CPC.from_kx(k=c.k, x=c.x, x_act=c.x_act, y_act=c.y_act, pair=c.pair, cid=f"c{len(cs)}"))
    return toks, true, cs


def ref_of(c): return Ref(d(c.k), d(c.x), d(c.x_act), d(c.y_act))


def flow(r, p):
    """what a curve trades when an arbitrageur moves it to the price p (y per x), and how that depends on p: (dx, dy)"""
    X = r.x_at(p)
    lo = max(r.xmin, D(0)); hi = r.k / r.ymin if r.ymin > r.y * D("1e-13") else None
    if X < lo: X = lo
    if hi is not None and X > hi: X = hi
    if X <= 0: return None
    return X - r.x, r.k / X - r.y


def certificate(ctx, cs, vals, price, target, tol_net, what, tolf=1e-9):
    """every curve is at the common price or at the end of its range, and all tokens but the target net to zero; returns nets"""
    net, vol = {}, {}
    for c, (dx, dy) in zip(cs, vals):
        r = ref_of(c)
        p = price(c.tknx, c.tkny)
        f = flow(r, p)
        if f is None: ctx.skip("unbounded")
        for g, e, s, t in ((dx, f[0], r.x, c.tknx), (dy, f[1], r.y, c.tkny)):
            m = float(s) + abs(float(e))
            ctx.close("certificate", g, e, f"{what}:flow", tolf, tolf * m, f"curve {c.cid} {c.pair} at price {p}: {g} {t}")
            net[t] = net.get(t, 0) + d(g); vol[t] = vol.get(t, 0) + m
        ctx.check("certificate", c.x_act + dx >= -1e-8 * c.x and c.y_act + dy >= -1e-8 * c.y, f"{what}:overdrawn", f"{c.cid}: {c.x_act}{dx:+} {c.y_act}{dy:+}")
        ctx.check("certificate", not (dx > 1e-8 * c.x and dy > 1e-8 * c.y) and not (dx < -1e-8 * c.x and dy < -1e-8 * c.y), f"{what}:one-sided", f"{c.cid} {dx} {dy}")
    for t in net:
        if t != target:
            ctx.check("selffinancing", abs(net[t]) <= tol_net * vol[t], f"{what}:not-self-financing", f"target {target}: {float(net[t])} {t} are missing of {vol[t]}")
    ctx.check("selffinancing", net[target] <= D(tol_net * 2 * len(net)) * d(vol[target]), f"{what}:loss", f"pays {float(net[target])} {target}")
    return net, vol


def state(cs): return [(c.k, c.x, c.x_act, c.y_act, c.cid, c.pair) for c in cs]


def margp(ctx):
    rng = ctx.rng
    kinds = rng.choice([["unlev"], ["unlev"], ["unlev", "wide"], ["wide"], ["narrow"], ["wide", "narrow", "unlev"], ["carbon", "wide"], ["carbon", "unlev"]])
    spread = rng.choice([0, 0.001, 0.02, 0.2])
    alike = rng.random() < 0.7                          # pools of similar size
    toks, true, cs = market(rng, rng.choice([2, 2, 3, 3, 4, 6]), spread, kinds, size=(1e3, 1e5) if alike else (1e2, 1e6), scale=rng.choice([(1e-3, 1e3), (1e-3, 1e3), (1e-9, 1e9)]))
    must = kinds == ["unlev"] and alike
    ctx.log(kinds, spread, *[repr(c) for c in cs])
    T = rng.choice(toks[:2])
    ps = {t: true[t] / true[T] for t in toks if t != T}
    CC = CPCContainer(cs)
    o = OPT(CC if rng.random() < 0.5 else list(cs))
    ctx.check("formats", list(o.curve_container) == cs and list(o.CC) == cs and o.tokens() == set(toks), "container", "")
    before = state(cs)
    missing = [t for t in toks if t != T and CC.price_estimate(tknb=t, tknq=T, raiseonerror=False) is None]
    mode = rng.choice(["own", "dict", "df", "dict+"])
    if mode == "own": par = None
    elif mode == "dict": par = dict(pstart=ps)
    elif mode == "dict+": par = dict(pstart=dict(ps, XYZ=5), maxiter=rng.choice([50, 80]), verbose=rng.random() < 0.2, progress=True, tknd=True)
    else:                                               # a table of prices, possibly in terms of several tokens
        par = dict(pstart=pd.DataFrame({**({t: {s: true[s] / true[t] for s in ps} for t in toks if t != T} if rng.random() < 0.5 else {}), T: ps}))
    sfc = rng.choice([T, o.arb(T), o.SFC(**{T: o.AMMPays}), o.SFCd({T: o.OV}), o.SFCa(T)])
    if mode == "own" and missing:
        try:
            quiet(o.margp_optimizer, sfc, params=par); ctx.check("liveness", False, "no-estimates", "accepted")
        except Exception as e:
            ctx.check("liveness", "pstart" in str(e), "no-estimates", str(e))
        ctx.cover("noestimate"); ctx.run((before, T, mode), False)
        return
    r = quiet(o.margp_optimizer, sfc, params=par)
    ctx.check("untouched", state(cs) == before, "changed", "optimizing changed the curves")
    if r.is_error:
        ctx.check("liveness", not must, "margp:error", f"{r.error} for unlevered curves, spread {spread}, start {mode}")
        ctx.check("formats", isinstance(r.error, str) and r.error == r.errormsg == r.detailed_error() and r.status() == "error", "error-status", "")
        for f in (lambda: r.curves_new, lambda: r.dxvalues, lambda: r.trade_instructions()):
            try:
                f(); ctx.check("formats", False, "error-used", "")
            except AssertionError: ctx.check("formats", True, "", "")
        ctx.cover("error", "+".join(kinds)); ctx.run((before, T, mode), False)
        return
    ctx.check("liveness", r.status() == "converged" and r.error is None and r.method == "margp" and r.targettkn == T, "status", "")
    vals = r.dxdyvalues()
    P = dict(zip(r.tokens_t, r.p_optimal_t)); P[T] = 1.0
    ctx.check("formats", set(r.tokens_t) == set(toks) - {T} and r.p_optimal == {t: P[t] for t in r.tokens_t} and all(r.price(a, b) == P[a] / P[b] for a in toks for b in toks), "prices", "")
    net, vol = certificate(ctx, cs, vals, lambda a, b: d(P[a]) / d(P[b]), T, 1.2e-5, "margp")
    ctx.close("result", r.result, net[T], "result", 1e-9, 1e-12 * vol[T], f"result in {T}")
    ctx.check("result", float(r) == float(r.result) and set(r.dtokens) == set(toks) and r.dtokens[T] == r.result, "float", "")
    for t, v in zip(r.tokens_t, r.dtokens_t):
        ctx.close("result", v, net[t], "dtokens", 1e-9, 1e-12 * vol[t], t)
        ctx.check("result", v == r.dtokens[t], "dtokens:dict", "")
    ctx.check("formats", r.dxvalues == tuple(a for a, _ in vals) and r.dyvalues == tuple(b for _, b in vals) and r.dxdyvalues(asdict=True) == {c.cid: v for c, v in zip(cs, vals)}, "vectors", "")
    # the curves after the trades: nothing left to gain
    new = quiet(lambda: r.curves_new)
    ctx.check("formats", [c.cid for c in new] == [f"{c.cid}-x" for c in cs], "curves_new", f"{[c.cid for c in new]}")
    for c, n, (dx, dy) in zip(cs, new, vals):
        m = max(1, c.x / n.x, n.x / c.x)
        ctx.close("certificate", n.x_act, c.x_act + dx, "new:x", 1e-11 * m, 1e-11 * c.x * m, ""); ctx.close("certificate", n.y_act, c.y_act + dy, "new:y", 1e-9 * m, 1e-9 * c.y * m, "")
    gain = -float(net[T])
    o2 = OPT(new)
    r2 = quiet(o2.margp_optimizer, T, params=dict(pstart=r.p_optimal))
    if not r2.is_error:
        ctx.check("again", -r2.result <= 2e-5 * vol[T], "residual-arbitrage", f"after taking {gain} another {-r2.result} {T} can be taken")
    else:
        ctx.check("again", not must, "again:error", f"{r2.error}")
    if kinds == ["unlev"] and spread > 0 and len(cs) > len(toks) and rng.random() < 0.7:
        ctx.cover("arb", gain > 1e-6 * vol[T])
    # other ways to ask for the same thing
    mn = quiet(o.margp_optimizer, sfc, result=o.MO_MINIMAL, params=par)
    ctx.check("formats", mn.p_optimal is None and mn.curves is None and mn.optimizer is None and mn.dtokens is None and mn.p_optimal_t == r.p_optimal_t and mn.result == r.result, "minimal", "")
    ctx.check("formats", r.optimizer is o and r.curves is o.curve_container, "full", "")
    f = quiet(o.margp_optimizer, sfc, result=o.MO_DTKNFROMPF, params=par)
    for k in range(2):
        q = [P[t] * math.exp(rng.gauss(0, 0.05)) for t in r.tokens_t]
        Q = dict(zip(r.tokens_t, q)); Q[T] = 1
        e = {t: D(0) for t in toks}
        for c in cs:
            fl = flow(ref_of(c), d(Q[c.tknx]) / d(Q[c.tkny]))
            if fl: e[c.tknx] += fl[0]; e[c.tkny] += fl[1]
        g1 = quiet(f, q, islog10=False); g2 = quiet(f, np.log10(q)); dct, g3 = quiet(f, q, islog10=False, asdct=True)
        for i, t in enumerate(r.tokens_t):
            ctx.close("formats", g1[i], e[t], "dtknfromp", 1e-9, 1e-9 * vol[t], f"{t} at {Q}"); ctx.close("formats", g2[i], g1[i], "dtknfromp:log", 1e-9, 1e-9 * vol[t], "")
            ctx.check("formats", dct[t] == g3[i] == g1[i], "dtknfromp:dict", "")
        ctx.close("formats", dct[T], e[T], "dtknfromp:target", 1e-9, 1e-9 * vol[T], "")
    if not missing:
        df = quiet(o.margp_optimizer, sfc, result=o.MO_PSTART)
        for t in toks:
            if t != T: ctx.close("formats", df.loc[t, T], CC.price_estimate(tknb=t, tknq=T), "pstart", 1e-12, 0, t)
        ctx.check("formats", set(df.index) == set(toks) - {T} and list(df.columns) == [T], "pstart:index", "")
        pe = o.price_estimates(tknq=T, tknbs=list(df.index))
        ctx.check("formats", [float(x) for x in pe] == [float(df.loc[t, T]) for t in df.index], "price_estimates", "")
    # relations between problems
    if kinds == ["unlev"]:
        sh = list(cs); rng.shuffle(sh)
        mir = [CPC.from_kx(k=c.k, x=c.y, x_act=c.y_act, y_act=c.x_act, pair=f"{c.tkny}/{c.tknx}", cid=c.cid) if rng.random() < 0.5 else c for c in sh]
        half = [x for c in mir for x in (CPC.from_kx(k=c.k / 4, x=c.x / 2, pair=c.pair, cid=c.cid + "a"), CPC.from_kx(k=c.k / 4, x=c.x / 2, pair=c.pair, cid=c.cid + "b"))]
        for w, l in (("order", sh), ("mirror", mir), ("halves", half)):
            rr = quiet(OPT(l).margp_optimizer, T, params=dict(pstart=ps))
            ctx.check("metamorphic", not must or not rr.is_error, w + ":error", f"{rr.error}")
            if rr.is_error: continue
            ctx.close("metamorphic", rr.result, r.result, w, 1e-6, 3e-5 * vol[T], f"{T} gained with the curves given differently ({w})")
        far = {t: v * math.exp(rng.uniform(-1, 1)) for t, v in ps.items()}
        rr = quiet(OPT(cs).margp_optimizer, T, params=dict(pstart=far))
        if not rr.is_error: ctx.close("metamorphic", rr.result, r.result, "start", 1e-6, 3e-5 * vol[T], "from other starting prices")
    # fewer steps than it takes: an error or a solution, never something in between
    for it in (1, rng.choice([2, 3, 4])):
        q = {t: v * math.exp(rng.choice([0, 1]) * rng.uniform(-1, 1)) for t, v in ps.items()}
        rr = quiet(o.margp_optimizer, T, params=dict(pstart=q, maxiter=it))
        if not rr.is_error:
            certificate(ctx, cs, rr.dxdyvalues(), lambda a, b: d(rr.price(a, b)), T, 1.2e-5, "maxiter")
            ctx.cover("maxiter", it)
        else: ctx.cover("maxiter", "error")
    # constraints on several tokens are for the convex optimizer only
    try:
        quiet(o.margp_optimizer, o.SFCd({T: o.AMMPays, rng.choice([t for t in toks if t != T]): rng.choice([1, -1])}), params=par); ctx.check("formats", False, "constraint", "accepted")
    except AssertionError: ctx.check("formats", True, "", "")
    ctx.cover("ok", "+".join(kinds), mode, "it%d" % min(r.n_iterations, 3), len(toks))
    ctx.run((before, T, mode), gain > 1e-9 * vol[T])
    ctx.sample([kinds, spread, T, r.result])


def simple(ctx):
    rng = ctx.rng
    kinds = rng.choice([["unlev"], ["wide"], ["narrow"], ["carbon"], ["carbon", "unlev", "wide"], ["carbon", "carbon", "narrow"]])
    toks, true, cs = market(rng, 2, rng.choice([0, 0.001, 0.02, 0.2]), kinds, scale=rng.choice([(0.1, 10), (1e-6, 1e6)]))
    ctx.log(kinds, *[repr(c) for c in cs])
    before = state(cs)
    o = OPT(CPCContainer(cs))
    prim = cs[0].pairo.primary
    x, y = prim.split("/")
    pr = lambda a, b: (lambda p: p if (a, b) == (x, y) else 1 / p)
    moved = False
    vf, sf, vx, vy = (o.simple_optimizer(result=k) for k in (o.SO_DXDYVECFUNC, o.SO_DXDYSUMFUNC, o.SO_DXDYVALXFUNC, o.SO_DXDYVALYFUNC))
    for target in (x, y):
        other = y if target == x else x
        r = quiet(o.simple_optimizer, targettkn=target, result=rng.choice([None, o.SO_TARGETTKN]))
        ctx.check("untouched", state(cs) == before, "changed", "")
        ctx.check("simple", not r.is_error and r.status() == "converged" and r.method == "simple-targettkn" and r.error is None, "error", f"{r.error}")
        ctx.check("simple", (r.pair, r.tknx, r.tkny) == (prim, x, y) and r.tknxp == x.split("-")[0] and r.pairp == f"{x.split('-')[0]}/{y.split('-')[0]}", "pair", f"{r.pair} expected {prim}")
        p = d(r.p_optimal)
        vec = r.dxdy_vec
        vals = [(v[0], v[1]) if c.tknx == x else (v[1], v[0]) for c, v in zip(cs, vec)]
        price = lambda a, b: p if a == x else 1 / p
        net, vol = certificate(ctx, cs, vals, price, target, 1e-8, "simple")
        ctx.close("simple", r.result, net[target], "result", 1e-9, 1e-12 * vol[target], f"result in {target}")
        s = r.dxdy_sum
        ctx.close("simple", s[0], net[x], "sum:x", 1e-9, 1e-12 * vol[x], ""); ctx.close("simple", s[1], net[y], "sum:y", 1e-9, 1e-12 * vol[y], "")
        pf = r.p_optimal
        ctx.close("simple", r.valx, s[0] + s[1] / pf, "valx", 1e-9, 1e-9 * vol[x], ""); ctx.close("simple", r.valy, s[0] * pf + s[1], "valy", 1e-9, 1e-9 * vol[y], "")
        ctx.check("simple", tuple(r.dxvalues) == tuple(v[0] for v in vec) == tuple(r.dxv) and tuple(r.dyvalues) == tuple(v[1] for v in vec) == tuple(r.dyv), "vectors", "")
        ps = sorted(c.p if c.tknx == x else 1 / c.p for c in cs)
        ctx.check("simple", ps[0] * (1 - 0.0101) <= pf <= ps[-1] * 1.0101, "price", f"{pf} outside of {ps}")
        moved |= net[target] < -D(1e-9) * d(vol[target])
        for q in (pf, pf * 1.01, ps[0] * 0.7, ps[-1] * 2):
            v = vf(q); s = sf(q)
            ctx.check("simple", [tuple(a) for a in v] == [tuple(a) for a in r.dxdyfromp_vec_f(q)] and tuple(s) == tuple(sum(v)) and tuple(r.dxdyfromp_sum_f(q)) == tuple(s), "functions", "")
            ctx.close("simple", vy(q), s[0] * q + s[1], "valy_f", 1e-9, 1e-9 * (vol[y] + q * vol[x]), ""); ctx.close("simple", vx(q), s[0] + s[1] / q, "valx_f", 1e-9, 1e-9 * (vol[x] + vol[y] / q), "")
            ctx.check("simple", tuple(map(tuple, r.dxdyfromp_vecs_f(q))) == tuple(zip(*v)), "vecs_f", "")
    # the same by the general optimizer
    r2 = quiet(o.margp_optimizer, target, params=dict(pstart={other: pf if other == x else 1 / pf}))
    if not r2.is_error:
        ctx.close("simple", r2.result, r.result, "vs-margp", 1e-4, 3e-5 * vol[target], "single-pair and marginal price optimizer differ")
    for kw in (dict(targettkn="NOPE"), dict(result=o.SO_TARGETTKN), dict(targettkn=x, result=o.SO_GLOBALMAX)):
        try:
            quiet(o.simple_optimizer, **kw); ctx.check("simple", False, "accepted", f"{kw}")
        except AssertionError: ctx.check("simple", True, "", "")
    extra, _, _ = rand_curve(rng, pr="FOO/BAR", cid="extra")
    try:
        quiet(OPT(cs + [extra]).simple_optimizer, targettkn=x); ctx.check("simple", False, "two-pairs", "")
    except AssertionError: ctx.check("simple", True, "", "")
    # global maximum: reported value belongs to reported price
    # (where Newton's method runs away, no claim is made: the formulas under/overflow there)
    try: g = quiet(o.simple_optimizer)
    except ArithmeticError: g = None
    if g is not None and not g.is_error and g.p_optimal > 0 and math.isfinite(g.p_optimal):
        ctx.check("simple", g.method == "simple-globalmax" and close(g.result, vx(g.p_optimal), 1e-12, 0) and close(float(quiet(o.simple_optimizer, result=o.SO_PMAX)), g.p_optimal, 1e-12, 0), "globalmax", "")
    ctx.cover("simple", "+".join(kinds), "moved" if moved else "flat")
    ctx.run((before,), bool(moved))


def dual(cs, T, p):
    """a lower bound on the net amount of T (negative: profit) for any prices p: no curve gives more at these prices than its point at (or clipped to its range nearest) the price"""
    v = 0
    for c in cs:
        x = math.sqrt(c.k / (p[c.tknx] / p[c.tkny]))
        x = max(x, c.x - c.x_act); ymin = c.y - c.y_act
        if ymin > 0: x = min(x, c.k / ymin)
        v += p[c.tknx] * (x - c.x) + p[c.tkny] * (c.k / x - c.y)
    return v / p[T]


def convex(ctx):
    rng = ctx.rng
    lev = rng.random() < 0.6
    kinds = ["unlev"] if not lev else rng.choice([["unlev", "wide", "carbon"], ["unlev", "wide", "narrow", "carbon"]])
    toks, true, cs = market(rng, rng.choice([2, 3, 3, 4]) if lev else rng.choice([2, 3, 3]), rng.choice([0.02, 0.1, 0.2]) if lev else rng.choice([0.001, 0.02, 0.1]), kinds, scale=(0.5, 2), size=(500, 2000))
    T = toks[0]
    sc = None if rng.random() < 0.4 else {t: round(rng.uniform(0.2, 5), 3) for t in toks}
    ctx.log(*[repr(c) for c in cs], sc)
    o = OPT(CPCContainer(cs, tokenscale=None if sc is None else TS.TokenScale.from_tokenscales(**sc)))
    before = state(cs)
    inp = {}
    kw = rng.choice([{}, dict(maxconstr=True), dict(maxconstr=True), dict(nominconstr=True)])
    bounded = lev and not kw.get("nominconstr")
    how = rng.choice(["str", "arb", "SFC", "in"] if not bounded else ["str", "arb", "SFC"])
    if how == "str": sfc = T
    elif how == "arb": sfc = o.arb(T)
    elif how == "SFC": sfc = o.SFC(**{T: o.AMMPays})
    else:
        # given net flows (in or out) of one or several tokens, some of them zero
        inp = {s: round(rng.choice([1, 1, -1]) * rng.uniform(1, 20), 3) for s in rng.sample(toks[1:], rng.choice([1, len(toks) - 1]))}
        if rng.random() < 0.3: inp[rng.choice(toks[1:])] = 0
        sfc = rng.choice([lambda: o.SFC(**inp, **{T: o.AMMPays}), lambda: o.SFCd({T: rng.choice([o.AMMReceives, o.OV]), **inp})])()
    r = quiet(o.nofees_optimizer, sfc, solver="ECOS", **kw)
    ctx.check("untouched", state(cs) == before, "changed", "")
    if r.is_error:
        # a solver may stop before the last digits, but a market that can be arbitraged is neither infeasible nor unbounded
        ctx.check("convexerror", r.error is not None and (r.status == "optimal_inaccurate" or "failed" in r.error), "convex:error", f"{r.error} {r.status}")
        ctx.cover("convex", "error"); ctx.run((before, how), False)
        return
    ctx.check("convex", r.status == "optimal" and r.error is None, "status", f"{r.status} is not an error")
    net, vol = {}, {}
    dxs, dys = [float(v) for v in r.dxvalues], [float(v) for v in r.dyvalues]
    for c, dx, dy in zip(cs, dxs, dys):
        if not bounded: ctx.close("convex", (c.x + dx) * (c.y + dy), c.k, "invariant", 1e-4, 0, f"{c.cid}: {dx} {dy}")
        ctx.check("convex", (c.x + dx) * (c.y + dy) >= c.k * (1 - 1e-6), "below-curve", f"{c.cid}: {dx} {dy}")
        if not kw.get("nominconstr"):
            ctx.check("convex", c.x_act + dx >= -1e-6 * c.x and c.y_act + dy >= -1e-6 * c.y, "overdrawn", f"{c.cid}: {dx} {dy} of {c.x_act} {c.y_act}")
        for t, a, s in ((c.tknx, dx, c.x), (c.tkny, dy, c.y)):
            net[t] = net.get(t, 0) + a; vol[t] = vol.get(t, 0) + s
    for t in net:
        if t != T: ctx.check("selffinancing", abs(net[t] - inp.get(t, 0)) <= 1e-6 * vol[t], "convex:net", f"{how}: {net[t]} {t}, expected {inp.get(t, 0)}")
    if sc is None: ctx.close("convex", r.result, net[T], "result", 1e-6, 1e-7 * vol[T], "")
    if not bounded:
        # the optimum by solving for the prices: the best of the marginal price optimum with the input as an additional flow
        best = optimum(cs, toks, T, inp)
        if best is not None:
            ctx.close("convex", net[T], best, "optimum", 1e-5, 1e-5 * vol[T], f"{how} {inp}: net {T}")
    else:
        g = quiet(o.margp_optimizer, T, params=dict(pstart={t: true[t] / true[T] for t in toks}))
        if not g.is_error:
            # all tokens have a positive price: nothing is wasted (without: tokens nobody takes may be given away)
            for c, dx, dy in zip(cs, dxs, dys): ctx.close("convex", (c.x + dx) * (c.y + dy), c.k, "invariant", 1e-4, 0, f"{c.cid}: {dx} {dy}")
            low = dual(cs, T, {**g.p_optimal, T: 1})
            ctx.check("convex", net[T] >= low - 1e-5 * vol[T], "better-than-possible", f"net {net[T]} {T}, bound {low}")
            ctx.close("convex", net[T], g.result, "vs-margp", 1e-5, 3e-5 * vol[T], f"net {T}")
            ctx.cover("convex", "levered", "scaled" if sc else "")
    df = r.dxdydf(asdict=True)
    ctx.check("formats", [x["cid"] for x in df] == [c.cid for c in cs] and all(close(x[c.tknx], dx) and close(x[c.tkny], dy) and close(x["kk"], (c.x + dx) * (c.y + dy) / c.k) for x, c, dx, dy in zip(df, cs, dxs, dys)), "dxdydf", f"{df}")
    dk = r.dxdydf(asdict=True, inclk=True)
    ctx.check("formats", [{k: v for k, v in x.items() if k not in ("k", "kpost")} for x in dk] == df and all(x["k"] == c.k and close(x["kpost"], (c.x + dx) * (c.y + dy)) for x, c, dx, dy in zip(dk, cs, dxs, dys)), "dxdydf:k", f"{dk}")
    fr = r.dxdydf(pretty=False)
    ctx.check("formats", list(fr.index) == [c.cid for c in cs] + ["total"] and all(abs(fr.loc["total", t] - net[t]) <= 1e-9 * vol[t] for t in net), "dxdydf:total", f"{fr}")
    new = r.curves_new
    for c, n, dx in zip(cs, new, dxs): ctx.close("convex", n.x, c.x + dx, "new", 1e-9, 0, "")
    ctx.cover("convex", how, len(toks)); ctx.run((before, how, inp), any(abs(dx) > 1e-6 * c.x for c, dx in zip(cs, dxs)))


def optimum(cs, toks, T, inp):
    """largest net amount of T leaving unlevered curves when `inp` is added: minimises the convex dual by damped Newton steps on log prices"""
    ts = [t for t in toks if t != T]
    u = np.zeros(len(ts))
    def F(u):
        p = {T: 1.0, **{t: math.exp(v) for t, v in zip(ts, u)}}
        f = {t: 0.0 for t in toks}
        for c in cs:
            q = p[c.tknx] / p[c.tkny]
            f[c.tknx] += math.sqrt(c.k / q) - c.x; f[c.tkny] += math.sqrt(c.k * q) - c.y
        return np.array([f[t] - inp.get(t, 0) for t in ts]), f[T]
    for it in range(200):
        v, fT = F(u)
        if np.max(np.abs(v)) < 1e-9: return fT
        J = np.zeros((len(ts), len(ts)))
        for j in range(len(ts)):
            h = np.zeros(len(ts)); h[j] = 1e-6
            J[:, j] = (F(u + h)[0] - F(u - h)[0]) / 2e-6
        try: s = np.linalg.solve(J, -v)
        except np.linalg.LinAlgError: return None
        n = np.max(np.abs(s)); u = u + s * min(1, 0.5 / n if n > 0 else 1)
    return None


def constraints(ctx):
    """the descriptions of what is to be optimized"""
    rng = ctx.rng
    S = OPT.SelfFinancingConstraints
    toks = rng.sample(TOKENS, rng.randint(1, 6)); T = toks[0]
    ov = rng.choice([S.AMMPays, S.AMMReceives, S.OV])
    given = {t: rng.choice([0, 0, 0.0, 1, -1, 5.5, rng.gauss(0, 9)]) for t in toks[1:] if rng.random() < 0.6}
    l = list({T: ov, **given}.items()); rng.shuffle(l); data = dict(l)
    every = set(toks) if rng.random() < 0.7 else set(data)
    how = rng.choice(["new", "newstr", "direct", "opt", "optd"]) if every == set(toks) else "direct"
    if how == "new": s = S.new(rng.choice([list, tuple, set])(toks), **data)
    elif how == "newstr": s = S.new(rng.choice([",", ", ", " , "]).join(toks), **data)
    elif how == "direct": s = S(data=data) if every == set(data) else S(data=data, tokens=list(toks))
    else:
        if len(toks) < 2: ctx.skip("one token")
        o = OPT([CPC.from_px(p=1, x=1, pair=f"{t}/{T}") for t in toks[1:]])
        s = o.SFC(**data) if how == "opt" else o.SFCd(data)
    ctx.check("constraints", s.optimizationvar == T and s.tokens == every and s.tokens_l == sorted(every) and s.tokens_s == ", ".join(sorted(every)), "tokens", f"{s}")
    ctx.check("constraints", s.asdict(short=True) == data and s.asdict() == {t: data.get(t, 0) for t in every} == dict(s.items()) and dict(s.items(short=True)) == data, "data", f"{s.asdict()} {data}")
    for t in every:
        ctx.check("constraints", s.get(t) == s(t) == data.get(t, 0) and s.is_optimizationvar(t) == (t == T) and s.is_constraint(t) == (t != T), "get", f"{t}")
    ctx.check("constraints", s.is_arbsfc() == all(v == 0 for v in given.values()), "arb", f"{data}")
    for bad in (lambda: s.get("NOPE"), lambda: s.is_optimizationvar("NOPE"), lambda: S(data=dict(given)), lambda: S(data={**data, "NOPE": S.OV}), lambda: S.new(toks, **{**data, "NOPE": 1})):
        try: bad(); ctx.check("constraints", False, "accepted", f"{data}")
        except AssertionError: ctx.check("constraints", True, "", "")
    a = S.arb(T)
    ctx.check("constraints", a.optimizationvar == T and a.is_arbsfc() and a.tokens == {T}, "arb:new", "")
    ctx.cover("constraints", how, ov, s.is_arbsfc()); ctx.run((how, tuple(l)), len(toks) > 1)


def helpers(ctx):
    rng = ctx.rng
    a, b, c3 = rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(0.2, 3)
    f = lambda x: c3 * (x - a) ** 2 + b
    x = rng.uniform(-3, 3)
    ctx.close("helpers", BASE.deriv(f, x), 2 * c3 * (x - a), "deriv", 1e-5, 1e-6, ""); ctx.close("helpers", BASE.deriv2(f, x), 2 * c3, "deriv2", 0.02, 0.02, "")
    r = BASE.findmin_gd(f, x, learning_rate=0.2 / c3, N=100); ctx.close("helpers", float(r), a, "findmin_gd", 1e-4, 1e-4, "")
    r = BASE.findmax_gd(lambda z: -f(z), x, learning_rate=0.2 / c3, N=100); ctx.close("helpers", float(r), a, "findmax_gd", 1e-4, 1e-4, "")
    for fn, g in ((BASE.findminmax_nr, f), (BASE.findmin, f), (BASE.findmax, lambda z: -f(z))):
        r = fn(g, x); ctx.check("helpers", not r.is_error and close(float(r), a, 1e-2, 1e-2), "newton", f"{r} expected {a}")
    r = BASE.findminmax_nr(lambda z: 1, x)
    ctx.check("helpers", r.is_error and r.result is None and r.context == {}, "newton:flat", f"{r}")
    try:
        float(r); ctx.check("helpers", False, "float-of-error", "")
    except ValueError: ctx.check("helpers", True, "", "")
    lo, hi = a - rng.choice([1, rng.uniform(0.1, 3)]), a + rng.choice([1, rng.uniform(0.1, 3)])
    for g in (lambda z: z - a, lambda z: a - z, lambda z: (z - a) ** 3, lambda z: math.exp(z) - math.exp(a), lambda z: min(0, z - a + 0.5) + max(0, z - a - 0.5)):
        r = BASE.goalseek(g, lo, hi)
        ctx.check("helpers", isinstance(r, BASE.SimpleResult) and lo <= float(r) <= hi and (abs(float(r) - a) < 2e-6 or abs(g(float(r))) < 2e-6), "goalseek", f"{r} expected {a}")
    for l, h in ((a, hi), (lo, a)):
        r = BASE.goalseek(lambda z: max(z - a, 0) if l == a else min(z - a, 0), l, h); ctx.check("helpers", float(r) == a, "goalseek:end", f"{r}")
    try:
        BASE.goalseek(lambda z: 1 + (z - a) ** 2, lo, hi); ctx.check("helpers", False, "goalseek:none", "")
    except ValueError: ctx.check("helpers", True, "", "")
    v = [rng.gauss(0, 1) for _ in range(5)] + [0]
    # variables with scales, and optimizers kept in a file
    import cvxpy as cp
    from carbon.tools.optimizer import ScaledVariable
    n = rng.randint(1, 9); vals = [rng.uniform(-5, 5) for _ in range(n)]; scs = [rng.uniform(0.2, 5) for _ in range(n)]; s1 = rng.uniform(0.2, 5)
    V = lambda: cp.Variable(n, value=list(vals))
    for sv, e in ((ScaledVariable(V()), vals), (ScaledVariable(V(), s1), [z / s1 for z in vals]), (ScaledVariable(V(), list(scs), ["T"] * n), [z / w for z, w in zip(vals, scs)])):
        ctx.check("helpers", len(sv.value) == n and all(close(float(g_), e_, 1e-12, 0) for g_, e_ in zip(sv.value, e)) and list(sv.v.value) == vals, "scaled", f"{sv.value} expected {e}")
    for bad in (lambda: ScaledVariable(V(), [1.0] * (n + 1)), lambda: ScaledVariable(V(), 1.0, ["T"] * (n + 1))):
        try: bad(); ctx.check("helpers", False, "scaled:length", "")
        except ValueError: pass
    if rng.random() < 0.2:
        toks, true, cs = market(rng, 2, 0.01, ["unlev", "wide", "carbon"])
        tmp = tempfile.mkdtemp(prefix="verif_p22_")
        try:
            o = OPT(CPCContainer(cs)); fn = os.path.join(tmp, "o")
            o.pickle(fn, addts=False); back = OPT.unpickle(fn)
            ctx.check("helpers", os.listdir(tmp) == ["o.optimizer.pickle"] and type(back) is OPT and state(back.CC) == state(cs), "pickle", "")
            o.pickle(fn); L = sorted(os.listdir(tmp))
            ctx.check("helpers", len(L) == 2 and L[0].startswith("o.") and state(OPT.unpickle(os.path.join(tmp, L[0][:-len(".optimizer.pickle")])).CC) == state(cs), "pickle:time", f"{L}")
        finally: shutil.rmtree(tmp)
    ctx.check("helpers", BASE.posx(v) == tuple(max(z, 0) for z in v) and BASE.negx(v) == tuple(min(z, 0) for z in v) and list(BASE.posx(np.array(v))) == [max(z, 0) for z in v]
              and list(BASE.negx(np.array(v))) == [min(z, 0) for z in v] and BASE.F(abs, v) == [abs(z) for z in v] and BASE.t(v) == tuple(v) and list(BASE.a(v)) == v, "vectors", "")
    n = rng.choice([1, 2, 4])
    A = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    x0 = np.array([rng.choice([0, 1, rng.choice([-1, 1]) * rng.uniform(0.1, 4)]) for _ in range(n)])
    g = lambda z: A @ (np.array(z) ** 2 + np.array(z))
    J, E = OPT.jacobian(g, x0), A * (2 * x0 + 1)
    ctx.check("helpers", np.allclose(J, E, rtol=1e-3, atol=1e-3) and np.allclose(OPT.J(g, x0, eps=1e-7), E, rtol=1e-4, atol=1e-4), "jacobian", f"{J} {E}")
    # self-financing constraints
    S = OPT.SelfFinancingConstraints
    tk = rng.sample(TOKENS, 4)
    ov = rng.choice([S.AMMPays, S.AMMReceives, S.OptimizationVar])
    data = {tk[0]: ov, tk[1]: rng.choice([0, 5.0])}
    s = S.new(rng.choice([tk, ",".join(tk), set(tk), ", ".join(tk)]), **data)
    ctx.check("helpers", s.optimizationvar == tk[0] and s.tokens == set(tk) and s.tokens_l == sorted(tk) and s.tokens_s == ", ".join(sorted(tk)) and s.asdict() == {t: data.get(t, 0) for t in tk}
              and s.asdict(short=True) == data and s(tk[2]) == 0 and s.get(tk[1]) == data[tk[1]] and s.is_optimizationvar(tk[0]) and s.is_constraint(tk[1]) and s.is_arbsfc() == (data[tk[1]] == 0) and dict(s.items()) == s.asdict(), "sfc", f"{s}")
    for bad in (dict(data={tk[0]: 5}), dict(data={tk[0]: ov, tk[1]: ov}), dict(data=data, tokens=tk[1:])):
        try:
            S(**bad); ctx.check("helpers", False, "sfc:accepted", f"{bad}")
        except AssertionError: ctx.check("helpers", True, "", "")
    ctx.run(("helpers", a, b), True)


CASES = [("margp", margp, 240, 6000), ("simple", simple, 200, 5000), ("convex", convex, 140, 2000), ("helpers", helpers, 60, 1000), ("constraints", constraints, 60, 1000)]
