"""swaps on levered constant product curves, and the inverted view of a curve"""
from vlib.cpclib import *

PID = "P19"
RULE = ("random curves (as in P18) traded in sequences of up to 12 swaps given by either leg, to, at and beyond the bounds, with bounds on or off; every "
        "swap compared with the invariant at 50 digits, with its split into parts, its reverse and the same trade through the inverted curve; distinct by "
        "curve and trade list; non-trivial if at least one swap executed")
ASSUME = ["relative tolerance 1e-11 of the virtual holdings per step", "trades within 1e-9 of a bound may go either way"]
REQUIRED = ["invariant", "amounts", "bounds", "refused", "functions", "inverse", "price", "clamp", "split", "immutable", "inverter"]


def step(ctx, c, r, kind, amt, ign):
    """one swap; returns (new curve, new reference) or None"""
    rel = 1e-12
    before = (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, dict(c.params))
    if kind == "dx": X = r.x + d(amt); Y = r.k / X if X > 0 else None
    else: Y = r.y + d(amt); X = r.k / Y if Y > 0 else None
    if X is None or Y is None: ctx.skip("through zero")
    XA, YA = r.xa + X - r.x, r.ya + Y - r.y
    over = max(-XA / r.x, -YA / r.y)
    verb = ctx.rng.random() < 0.2
    try:
        n = quiet(c.execute, **{kind: amt}, ignorebounds=ign, verbose=verb)
    except ValueError as e:
        ctx.check("refused", not ign and over > D("-1e-9"), "refused", f"{kind}={amt} refused though {float(XA)} and {float(YA)} would remain: {e}")
        ctx.check("immutable", before == (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, dict(c.params)), "changed-on-refusal", "")
        ctx.cover("refused")
        return None
    ctx.check("bounds", ign or over < D("3e-9"), "overdrawn", f"{kind}={amt} executed although {float(XA)} x and {float(YA)} y would remain")
    ctx.check("immutable", before == (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, dict(c.params)), "changed", "executing changed the original curve")
    ctx.check("invariant", n.k == c.k, "k-changed", f"{c.k} -> {n.k}")
    amp = rel * (1 + abs(float(d(amt) / (r.x if kind == "dx" else r.y)))) * max(1, float(r.x / X), float(r.y / Y))
    ctx.close("invariant", n.x, X, "x", amp, 0, f"x after {kind}={amt}")
    ctx.close("invariant", n.y, Y, "y", amp, 0, f"y after {kind}={amt}")
    ctx.close("amounts", n.x_act, XA, "x_act", amp, amp * float(max(r.x, X)), f"real x after {kind}={amt}")
    ctx.close("amounts", n.y_act, YA, "y_act", amp, amp * float(max(r.y, Y)), f"real y after {kind}={amt}")
    g, w = (n.x_act - c.x_act, n.y_act - c.y_act)
    ctx.check("amounts", (g >= -1e-9 * float(r.x)) or (w >= -1e-9 * float(r.y)), "both-out", f"both tokens leave: {g} {w}")
    ctx.check("amounts", n.pair == c.pair and n.fee == c.fee and all(n.params.get(k) == v for k, v in c.params.items() if k != "traded"), "meta", "")
    tr = n.params["traded"]
    ctx.check("amounts", tr[kind] == amt, "traded", f"{tr}")
    return n, Ref(d(n.k), d(n.x), d(n.x_act), d(n.y_act))


def functions(ctx, c, r, t):
    """the swap functions against the invariant, each other and execute"""
    rng = ctx.rng
    for _ in range(4):
        f = rng.choice([1e-6, 0.01, 0.3, 0.9, 0.999, 1, 1.01, 2]) * rng.choice([1, -1])
        dx = f * float(r.xa if f < 0 else (r.k / r.ymin - r.x if r.ymin > r.y * D("1e-9") else r.x))
        if dx == 0 or float(r.x) + dx <= 1e-9 * float(r.x): continue
        X = r.x + d(dx); Y = r.k / X
        amp = (t + 1e-13) * 4 * max(1, float(r.x / X), float(X / r.x))
        e = Y - r.y
        g = c.dyfromdx_f(dx, ignorebounds=True)
        ctx.close("functions", g, e, "dyfromdx", amp, amp * float(max(Y, r.y)), f"dy for dx={dx}")
        ctx.close("functions", c.yfromx_f(float(X), ignorebounds=True), Y, "yfromx", amp, 0, "y(x)")
        ctx.close("inverse", c.dxfromdy_f(g, ignorebounds=True), dx, "dxfromdy", amp, amp * float(max(X, r.x)) * max(1, float(r.y / Y)), f"dx from dy from dx={dx}")
        ctx.close("inverse", c.xfromy_f(c.yfromx_f(float(X), ignorebounds=True), ignorebounds=True), X, "xfromy", amp, 0, "x(y(x))")
        XA, YA = r.xa + d(dx), r.ya + e
        room = min(XA / r.x, YA / r.y)
        gb, hb = c.dyfromdx_f(dx), c.dxfromdy_f(float(e))
        tt = d(amp) * 10
        if room > tt:
            ctx.check("bounds", gb is not None and hb is not None, "in-range-none", f"dx={dx} leaves {XA} and {YA} but gives {gb}, {hb}")
            ctx.close("functions", gb, g, "bounded", 1e-15, 0, "")
            n = c.execute(dx=dx)
            ctx.close("functions", n.y_act - c.y_act, g, "execute", amp, amp * float(max(Y, r.y)) * 4, "dy of the executed trade")
        elif room < -tt:
            ctx.check("bounds", gb is None and hb is None, "out-of-range", f"dx={dx} would leave {XA} and {YA} but gives {gb}, {hb}")
        ctx.cover("fn:in" if room > 0 else "fn:out")
    # extremes
    for got, real, virt, other, name in ((c.dy_max, r.xa, r.x, r.y, "dy_max"), (c.dx_max, r.ya, r.y, r.x, "dx_max")):
        if c.x_act >= c.x and name == "dy_max" or c.y_act >= c.y and name == "dx_max":
            ctx.check("bounds", got is None, name, f"{got}")
        elif c.x_act == 0 and c.y_act == 0:
            continue                                        # an empty point of a curve: rounding decides whether it is in range
        elif virt - real > virt * D("1e-6"):
            e = r.k / (virt - real) - other
            amp = t * float(virt / (virt - real)) * 4
            ctx.check("bounds", got is not None, name + ":none", "")
            ctx.close("bounds", got, e, name, amp, amp * float(other + e), name)
    # marginal price
    for _ in range(3):
        p = float(r.p) * math.exp(rng.choice([0, rng.gauss(0, 0.01), rng.gauss(0, 1), rng.gauss(0, 6)]))
        if rng.random() < 0.15: p = c.p_min or p
        if rng.random() < 0.15: p = c.p_max or p
        X, Y = r.x_at(p), r.y_at(p)
        x, y, pp = c.xyfromp_f(p, ignorebounds=True)
        ctx.close("price", x, X, "xfromp", t + 1e-13, 0, f"x at p={p}"); ctx.close("price", y, Y, "yfromp", t + 1e-13, 0, "y at p"); ctx.check("price", pp == p, "p", "")
        ctx.close("price", y / x, p, "ratio", 1e-13, 0, "")
        dx, dy, _p = c.dxdyfromp_f(p, ignorebounds=True)
        a = (t + 1e-13) * 4
        ctx.close("price", dx, X - r.x, "dxfromp", a, a * float(X + r.x), ""); ctx.close("price", dy, Y - r.y, "dyfromp", a, a * float(Y + r.y), "")
        # clamped to the range
        xb, yb, _p = c.xyfromp_f(p)
        if (abs(r.ymin) < r.y * D("1e-9") and Y < r.y * D("1e-7")) or (abs(r.xmin) < r.x * D("1e-9") and X < r.x * D("1e-7")):
            continue                                    # the bound itself is rounding noise
        eX = min(max(X, r.xmin), r.k / r.ymin if r.ymin > 0 else D("inf"))
        eY = min(max(Y, r.ymin), r.k / r.xmin if r.xmin > 0 else D("inf"))
        a = (t + 1e-13) * 4
        ctx.close("clamp", xb, eX, "x", a, a * float(r.x), f"x at p={p} within the range"); ctx.close("clamp", yb, eY, "y", a, a * float(r.y), f"y at p={p} within the range")
        ctx.check("clamp", xb >= c.x_min * (1 - 1e-15) and yb >= c.y_min * (1 - 1e-15), "below", f"{xb} {yb}")
        u = c.xyfromp_f(p, withunits=True)
        ctx.check("price", u == (xb, yb, p, c.tknxp, c.tknyp, c.pairp), "units", f"{u}")
        u = c.dxdyfromp_f(p, withunits=True)
        ctx.check("price", u[3:] == (c.tknxp, c.tknyp, c.pairp) and u[0] == xb - c.x and u[1] == yb - c.y, "units:d", f"{u}")
    x, y, p = c.xyfromp_f(ignorebounds=True)
    ctx.close("price", x, r.x, "default", t + 1e-13, 0, "")


def inverter(ctx, c, t):
    rng = ctx.rng
    w = CPCInverter(c)
    ctx.check("inverter", (w.pair, w.tknb, w.tknx, w.tknq, w.tkny, w.tknbp, w.tknqp, w.tknxp, w.tknyp, w.pairp, w.cid) ==
              (f"{c.tknq}/{c.tknb}", c.tknq, c.tknq, c.tknb, c.tknb, c.tknqp, c.tknbp, c.tknqp, c.tknbp, f"{c.tknqp}/{c.tknbp}", c.cid), "names", f"{w.pair}")
    ctx.check("inverter", w.p_convention() == f"{c.tknbp} per {c.tknqp}" and str(w.pairo) == w.pair and w.pairo.isprimary != c.pairo.isprimary, "convention", "")
    ctx.close("inverter", w.p, 1 / c.p, "p", 1e-14, 0, "")
    ctx.check("inverter", (w.x, w.y, w.k, w.x_act, w.y_act, w.x_min, w.y_min, w.x_max, w.y_max) == (c.y, c.x, c.k, c.y_act, c.x_act, c.y_min, c.x_min, c.y_max, c.x_max), "state", "")
    for a, b in (("p_min", "p_max"), ("p_max", "p_min")):
        g, e = getattr(w, a), getattr(c, b)
        ctx.check("inverter", (g is None) == (e is None) and (g is None or abs(g * e - 1) < 1e-13), a, f"{a}={g} though {b}={e} of the curve")
    # an independently built mirror image gives the same answers
    m = CPC.from_kx(k=c.k, x=c.y, x_act=c.y_act, y_act=c.x_act, pair=w.pair, cid="m", fee=c.fee, descr=c.descr)
    for f in (-0.5, -0.99, 1e-3, 0.7, 3):
        dx = f * (m.x_act if f < 0 else m.x)
        for ib in (True, False):
            a, b = w.dyfromdx_f(dx, ignorebounds=ib), m.dyfromdx_f(dx, ignorebounds=ib)
            if (a is None) != (b is None):                 # rounding at the very bound
                ctx.check("inverter", abs((m.y_act + m.dyfromdx_f(dx, ignorebounds=True)) / m.y) < 1e-9 or abs(m.x_act + dx) < 1e-9 * m.x, "dy:none", f"dx={dx}: {a} vs {b}")
            elif a is not None:
                ctx.close("inverter", a, b, "dyfromdx", 1e-11, 1e-12 * m.y * max(1, m.x / abs(m.x + dx)), f"dy for dx={dx} through the inverter")
                # the other leg of the same trade
                back = w.dxfromdy_f(a, ignorebounds=True)
                ctx.close("inverter", back, dx, "dxfromdy", 1e-9, 1e-9 * m.x, "")
        x = m.x + dx
        ctx.close("inverter", w.yfromx_f(x, ignorebounds=True), m.k / x, "yfromx", 1e-12, 0, ""); ctx.close("inverter", w.xfromy_f(x, ignorebounds=True), m.k / x, "xfromy", 1e-12, 0, "")
        try: n1 = w.execute(dx=dx)
        except ValueError: n1 = None
        try: n2 = m.execute(dx=dx)
        except ValueError: n2 = None
        if n1 is None or n2 is None:
            ctx.check("inverter", (n1 is None) == (n2 is None) or abs((m.y_act + m.dyfromdx_f(dx, ignorebounds=True)) / m.y) < 1e-8, "execute:refused", f"dx={dx}")
        else:
            ctx.check("inverter", isinstance(n1, CPCInverter), "execute:type", "")
            s = max(1, m.x / abs(x), x / m.x)
            for k in ("k", "x", "y", "x_act", "y_act"):
                ctx.close("inverter", getattr(n1, k), getattr(n2, k), "execute:" + k, 1e-10, 1e-11 * s * (m.x if "x" in k else m.y), f"{k} after dx={dx} through the inverter")
        dy = -f * m.y_act if f > 0 and f < 1 else f * m.y_act
        try: n1 = w.execute(dy=dy)
        except ValueError: n1 = None
        try: n2 = m.execute(dy=dy)
        except ValueError: n2 = None
        if n1 is not None and n2 is not None:
            for k in ("x_act", "y_act"):
                ctx.close("inverter", getattr(n1, k), getattr(n2, k), "execute-dy:" + k, 1e-10, 1e-10 * (n2.x + m.x if "x" in k else n2.y + m.y), f"{k} after dy={dy} through the inverter")
    for p in (None, m.p * 1.5, m.p * 0.5, m.p * 100, m.p / 100):
        for ib in (True, False):
            for fn in ("xyfromp_f", "dxdyfromp_f"):
                a, b = getattr(w, fn)(p, ignorebounds=ib), getattr(m, fn)(p, ignorebounds=ib)
                for u, v, s in zip(a, b, (max(m.x, m.x_max or 0), max(m.y, m.y_max or 0), 0)):
                    s = max(s, abs(v))
                    ctx.close("inverter", u, v, fn, 1e-10, 1e-12 * s, f"{fn}({p}, ignorebounds={ib})")
                g = getattr(w, fn)(p, ignorebounds=ib, withunits=True)
                ctx.check("inverter", g == a + (w.tknxp, w.tknyp, w.pairp), fn + ":units", f"{g}")
    c2 = CPC.from_kx(k=c.k, x=c.y, x_act=c.y_act, y_act=c.x_act, pair=w.pair, cid="z", fee=c.fee, descr=c.descr)
    ws = CPCInverter.wrap([c, c2]); wg = tuple(CPCInverter.wrap([c, c2], asgenerator=True))
    ctx.check("inverter", ws == wg and all(x.pairo.isprimary for x in ws) and ws[0].pair == ws[1].pair and isinstance(ws[0], CPCInverter) == (not c.pairo.isprimary), "wrap", f"{ws}")
    ctx.check("inverter", CPCInverter.unwrap(ws) == (c, c2) and tuple(CPCInverter.unwrap(ws, asgenerator=True)) == (c, c2), "unwrap", "")


def case(ctx):
    rng = ctx.rng
    c, r, i = rand_curve(rng)
    t = tol(i)
    ctx.log(i["how"], repr(c))
    r = Ref(d(c.k), d(c.x), d(c.x_act), d(c.y_act))
    functions(ctx, c, r, 1e-12 + 0 * t)
    inverter(ctx, c, t)
    n = 0
    c0 = c
    if rng.random() < 0.5:
        try: c.execute(dx=1.0, dy=1.0); ctx.check("refused", False, "both-legs", "")
        except ValueError: ctx.check("refused", True, "", "")
    e = c.execute()
    for k in ("k", "x", "y", "x_act", "y_act"):
        ctx.close("invariant", getattr(e, k), getattr(c, k), "null-trade:" + k, 1e-14, 1e-14 * (c.x if "x" in k else c.y), "after a trade of nothing")
    for _ in range(rng.choice([1, 3, 6, 12])):
        kind = rng.choice(["dx", "dy"])
        f = rng.choice([1e-9, 1e-3, 0.1, 0.5, 0.9, 1, 1 + 1e-6, 1.5]) * rng.choice([-1, 1])
        real, virt = (c.x_act, c.x) if kind == "dx" else (c.y_act, c.y)
        amt = f * (real if f < 0 or rng.random() < 0.3 else virt)
        ign = rng.random() < 0.1 and virt + amt > 1e-3 * virt
        if virt + amt <= 1e-9 * virt: continue
        ctx.log(kind, amt, ign)
        o = step(ctx, c, r, kind, amt, ign)
        if o is None: continue
        n += 1
        # the same trade in two parts, by the other leg, and back
        c1, r1 = o
        if not ign:
            h = amt * rng.uniform(0.1, 0.9)
            m = c.execute(**{kind: h}, ignorebounds=True).execute(**{kind: amt - h}, ignorebounds=True)
            a = 1e-11 * max(1, c.x / c1.x, c1.x / c.x)
            ctx.close("split", m.x, c1.x, "split:x", a, 0, f"{kind}={amt} in two parts"); ctx.close("split", m.y_act, c1.y_act, "split:y_act", a, a * max(c.y, c1.y), "")
            b = c1.execute(**{kind: -amt}, ignorebounds=True)
            ctx.close("split", b.x, c.x, "back:x", a, 0, f"{kind}={amt} and back"); ctx.close("split", b.y_act, c.y_act, "back:y_act", a, a * max(c.y, c1.y), "")
        c, r = c1, r1
        if c.x_act < -1e-6 * c.x or c.y_act < -1e-6 * c.y: break
    ctx.cover("trades%d" % min(n, 6), i["how"])
    ctx.run((repr(c0), ctx.trail), n > 0)
    ctx.sample(ctx.trail[:5])


CASES = [("curves", case, 700, 20000)]
