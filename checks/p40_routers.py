"""orders and routers used without the simulator: constructors, the three matching algorithms, the order selector and order files"""
import json, os, shutil, tempfile
from decimal import Decimal as D, localcontext
from vlib.core import close
from vlib.cpclib import quiet, sig
from vlib.simlib import RefOrder, optimal
from checks.p12_fastalpha import greedy
from carbon.order import Order
from carbon.routers import ExactRouterX0Y0N, AlphaRouter, FastRouter

PID = "P40"
RULE = ("orders of every scale and width built by every constructor, then matched by the exact, alpha and fast routers used directly, by source and by target, with position subsets, order limits, partial filling and integer arithmetic, one router object serving many books; "
        "distinct by book and amount; non-trivial if two or more orders hold tokens")
ASSUME = ["target amounts are negative for the exact and alpha routers, as the simulator passes them", "the alpha router is given orders that hold tokens", "ties between equally good orders are not judged", "orders in csv files are not covered (the reader needs holdings the format does not have)"]
REQUIRED = ["forms", "curve", "refuse", "optimal", "delivered", "subset", "untouched", "totals", "partial", "insufficient", "threshold", "greedy", "floor", "selector", "file", "parameters", "reuse", "sub-amounts"]
COLLECT = 10
N = lambda x: float("%.12g" % x)


def spec(rng, scale=None, wide=None):
    """pl, ph, yint, y as decimals"""
    pl = D(repr(sig(rng, 1e-6, 1e6, 8) if scale is None else sig(rng, scale * .7, scale * 1.4, 8)))
    w = rng.choice(["wide", "narrow", "very", "flat"]) if wide is None else wide
    f = {"wide": 1 + 10 ** rng.uniform(-2, 1.5), "narrow": 1 + 10 ** rng.uniform(-5, -2), "very": 1 + 10 ** rng.uniform(0, 4), "flat": 1}[w]
    ph = pl * D(repr(float("%.8g" % f)))
    yint = D(repr(sig(rng, 1e-2, 1e7, 6))); y = yint if rng.random() < .4 else yint * D(repr(round(rng.uniform(.001, .999), 4)))
    return pl, ph, yint, y


def ref(i, s): return RefOrder(i, None, "Y", "Y", "X", s[0], s[1], s[3], s[2])


def build(rng, s):
    """one of the ways to say the same order; B and S are exact only where they are given as decimals"""
    pl, ph, yint, y = s
    with localcontext() as c:
        c.prec = 60; B = pl.sqrt(); S = ph.sqrt() - B; pm = (B + S * y / yint) ** 2
    how = rng.choice(["BS", "BS", "prices", "swapped", "D", "marg"]); kw = {}
    if how == "BS" or pl == ph and how == "marg": how = "BS"; kw = dict(B=B, S=S, y_int=yint, _y=y)
    elif how == "D": kw = dict(p_low=pl, p_high=ph, D=yint, _y=y)
    elif how == "marg": kw = dict(p_low=pl, p_high=ph, p_marginal=pm, _y=y)
    else: kw = dict(p_low=ph if how == "swapped" else pl, p_high=pl if how == "swapped" else ph, y_int=yint, _y=y)
    if how in ("D", "marg") and rng.random() < .5: kw.update(p_low=ph, p_high=pl)
    if rng.random() < .3: kw = {k: str(v) if k in ("y_int", "_y", "p_low", "p_high") and rng.random() < .5 else v for k, v in kw.items()}
    if how in ("D", "marg") or y != yint: kw["_C"] = y
    return quiet(Order, **kw), how


def orders(ctx):
    rng = ctx.rng
    for _ in range(8):
        s = spec(rng); pl, ph, yint, y = s; r = ref(0, s)
        O, how = build(rng, s); ctx.log([str(v) for v in s], how)
        tag = lambda m: f"{how}: {m}"
        tol = 1e-12 if pl != ph else 1e-9
        with localcontext() as c:
            c.prec = 60
            ctx.check("forms", close(float(O.p_low), float(pl), rel=1e-14) and close(float(O.p_high), float(ph), rel=1e-14) and close(float(O.y_int), float(yint), rel=max(1e-12, 1e-15 * float(ph / (ph - pl))) if how == "marg" else 1e-15) and float(O.y) == float(y) and O.D == O.y_int,
                      "order-fields", tag(f"{O.p_low} {O.p_high} {O.y_int} {O.y} for {s}"))
            ctx.check("forms", close(float(O.B), float(r.B), rel=1e-14) and abs(float(O.S) - float(r.S)) <= 1e-14 * float(r.B + r.S), "order-BS", tag(f"{O.B} {O.S} for {r.B} {r.S}"))
            ctx.check("curve", close(float(O.p), float((pl * ph).sqrt()), rel=1e-13), "order-p", tag(f"{O.p}"))
            if how != "marg" or ph / pl > D("1.001"):
                bought = r.dx_of_dy(D(0)) if y == yint else ref(0, (pl, ph, yint, yint)).dx_of_dy(yint - y)
                full = float(ref(0, (pl, ph, yint, yint)).dx_of_dy(yint))
                ctx.check("curve", abs(float(O.x) - float(bought)) <= tol * full, "order-x", tag(f"{O.x} expected {float(bought)}"))
                ctx.check("curve", close(float(O.k), float(O.x0 * O.y0), rel=1e-14) and close(float(O.x0 * O.p), float(O.y0), rel=1e-13), "order-k", tag(f"{O.k} {O.x0} {O.y0}"))
            y2 = y / 2; O.y = y2
            ctx.check("forms", O.y == y2 and O._y == y2, "order-y", tag(""))
        ctx.run((tuple(map(str, s)), how), True); ctx.cover("order", how, "flat" if pl == ph else "full" if y == yint else "part")
    pl, ph, yint, y = map(float, spec(rng, wide="wide"))
    O = quiet(Order, p_low=pl, p_high=ph, _y=y); ctx.check("forms", float(O.y_int) == y and O.D == O.y_int, "order-noyint", f"{O.y_int} {y}")
    b, t = D(repr(sig(rng, .01, 100, 6))), D(repr(sig(rng, .01, 100, 6))); O = quiet(Order, B=b, S=t, y_int=5, _y=5, _reverseq=True)
    ctx.check("forms", close(float(O.p_low), float(1 / (b + t) ** 2), rel=1e-14) and close(float(O.p_high), float(1 / b ** 2), rel=1e-14), "order-reverse", f"{O.p_low} {O.p_high} for B={b} S={t}")
    for kw in (dict(p_low=1, p_high=2, y_int=3), dict(p_low=1, p_high=2), dict(_y=3, y_int=3), dict(p_low=1, _y=3), dict(p_high=2, _y=2), dict(B=1, y_int=2, _y=2)):
        try: quiet(Order, **kw); ok = False
        except Exception: ok = True
        ctx.check("refuse", ok, "accepted", f"Order({kw})")


def book(rng, n, empty=.15, wide=None):
    sc = sig(rng, 1e-4, 1e4); S = []
    for _ in range(n):
        s = spec(rng, sc, wide or rng.choice(["wide", "wide", "narrow", "flat"]))
        if rng.random() < empty: s = s[:3] + (D(0),)
        S.append(s)
    with localcontext() as c:
        c.prec = 60
        O = [quiet(Order, B=s[0].sqrt(), S=s[1].sqrt() - s[0].sqrt(), y_int=s[2], _y=s[3], **({"_C": s[3]} if s[3] else {})) if rng.random() < .5 else quiet(Order, p_low=s[0], p_high=s[1], y_int=s[2], _y=s[3]) for s in S]
    return S, O, [ref(i, s) for i, s in enumerate(S)]


STATE = ("B", "S", "y_int", "p_high", "p_low", "_y", "D", "_C", "disabled", "id", "linked_to_id", "adj_n_mode", "_reverseq")
snap = lambda O: [tuple(str(getattr(o, a)) for a in STATE) for o in O]
NAMES = {ExactRouterX0Y0N: "exact", AlphaRouter: "alpha", FastRouter: "fast"}


def run(ctx, router, O, bt, amt, **kw):
    """actions as (index, dy, dx), or the refusal"""
    router.orders = O; before = snap(O); fast = isinstance(router, FastRouter)
    x = amt if not bt or fast and ctx.rng.random() < .5 else -amt
    f = kw.pop("f", None)
    try: A = quiet(f or (router.match_by_target if bt else router.match_by_src), x, **kw); exc = None
    except Exception as e: A, exc = None, e
    ctx.check("untouched", snap(O) == before and router.orders is O, "orders-changed", NAMES[type(router)])
    if A is None: return None, exc, None
    L = []
    for a in A:
        i, o = (a.output, a.input) if fast and bt else (a.input, a.output)
        L.append((int(a.index), abs(D(repr(o))), abs(D(repr(i)))))
    if not fast:
        ctx.check("totals", all(a.output <= 0 <= a.input for a in A) and all(a.match_method == ("by_target" if bt else "by_src") and close(float(abs(a.x)), float(amt), rel=1e-6, abs_=1e-9) or kw.get("support_partial") for a in A), "action-fields", f"{A}")
    # running totals, in the order of the actions
    ti = to = D(0)
    for j, a in enumerate(A):
        ti += D(repr(a.input)); to += D(repr(a.output)); last = fast and j == len(A) - 1
        ctx.check("totals", close(a.total_input, float(ti), rel=1e-9, abs_=1e-11 * len(A)) and close(a.total_output, float(-to if last else to), rel=1e-9, abs_=1e-11 * len(A)), "running-totals", f"{NAMES[type(router)]} action {j}: {a} expected {ti} {to}")
    ctx.check("totals", len({l[0] for l in L}) == len(L) and all(0 <= l[0] < len(O) for l in L), "order-twice", f"{L}")
    return L, None, A


def judge(ctx, L, R, bt, amt, tag, best=None):
    """fills on the curves, within the holdings, adding up to the amount; optimal over `best` if given"""
    n = len(R); ty = sum((l[1] for l in L), D(0)); tx = sum((l[2] for l in L), D(0))
    for i, dy, dx in L:
        r = R[i]
        ctx.check("curve", float(dy) <= float(r.y) * (1 + 1e-12) + 2e-12, "overdrawn", f"{tag}: order {i} sells {dy} of {r.y}")
        p = r.pmarg(r.y - min(dy, r.y)); e = 3e-12 * (1 + float(1 / p)) + 1e-11 * float(r.dx_of_dy(min(dy, r.y)))
        ctx.check("curve", abs(float(r.dx_of_dy(min(dy, r.y)) - dx)) <= e, "off-curve", f"{tag}: order {i} sells {dy} for {dx}, the curve asks {float(r.dx_of_dy(min(dy, r.y)))}")
    if amt is not None: ctx.check("delivered", close(float(ty if bt else tx), float(amt), rel=1e-9, abs_=3e-12 * n), "amount", f"{tag}: {ty if bt else tx} of {amt}")
    if best:
        _, oy, ox, _ = optimal(best, amt, bt)
        rlo = min(float(r.pl) for r in best); rhi = max(float(r.pmarg()) for r in best)
        ok = abs(float(tx - ox)) <= 1e-9 * float(ox) + 3e-12 * n * (1 + 1 / rlo) if bt else abs(float(ty - oy)) <= 1e-9 * float(oy) + 3e-12 * n * (1 + rhi)
        ctx.check("optimal", ok, "not-optimal", f"{tag}: {ty} for {tx}, optimum {float(oy)} for {float(ox)}")
    return ty, tx


def amount(rng, R, bt, over=False):
    tot = sum((r.y if bt else r.dx_of_dy(r.y) for r in R), D(0))
    f = D(repr(round(rng.uniform(1.11, 3), 3))) if over else D(repr(rng.choice([.001, .1, .5, .9, .999, round(rng.random() * .998 + .001, 4)])))
    return D("%.10g" % float(tot * f)), tot


ROUTERS = {}


def router(ctx, cls, **p):
    """the same object for many books; a fresh one must agree"""
    k = (cls, tuple(sorted(p.items())))
    if k not in ROUTERS: ROUTERS[k] = cls(parameters=dict(p)) if p or ctx.rng.random() < .5 else cls()
    return ROUTERS[k]


def exact(ctx):
    rng = ctx.rng
    S, O, R = book(rng, rng.choice([1, 2, 3, 4, 5, 8])); live = [r for r in R if r.y]
    if not live: return ctx.skip()
    rt = router(ctx, ExactRouterX0Y0N)
    for _ in range(4):
        bt = rng.random() < .5; sub = None; use = list(range(len(R)))
        if rng.random() < .4:
            sub = sorted(rng.sample(use, rng.randint(1, len(use)))); rng.shuffle(sub); use = sub
        el = [R[i] for i in use if R[i].y]
        if not el: continue
        over = rng.random() < .2; amt, tot = amount(rng, el, bt, over)
        if amt < D("1e-6"): continue
        kw = dict(f=lambda x, **k: rt.match(x, is_by_target=bt, use_positions_matchlevel=list(sub), **k)) if sub is not None else {}
        part = rng.random() < .4
        if part: kw["support_partial"] = True
        if rng.random() < .2: kw["check_sufficient_liquidity"] = rng.choice([True, False])
        ctx.log(bt, str(amt), sub, over, part, [tuple(map(str, s)) for s in S])
        L, exc, A = run(ctx, rt, O, bt, amt, **kw)
        if over and not part: ctx.check("insufficient", L is None, "filled", f"{amt} of {tot}: {L}"); continue
        ctx.check("insufficient", L is not None, "refused", f"{amt} of {tot}: {exc!r}")
        ctx.check("subset", {l[0] for l in L} <= {i for i in use if R[i].y}, "outside", f"{L} {use}")
        ty, tx = judge(ctx, L, R, bt, None if over else amt, "exact", None if over else el)
        if over: ctx.check("partial", close(float(ty), float(sum(r.y for r in el)), rel=1e-9, abs_=1e-11), "partial", f"{ty} of {sum(r.y for r in el)}")
        fr = ExactRouterX0Y0N()
        if sub is None:
            L2, _, _ = run(ctx, fr, O, bt, amt, **kw); ctx.check("reuse", sorted(L2) == sorted(L), "reused-router", f"{L} {L2}")
        # where the amount would go if orders had no ends: the shares add up and meet at one price
        if not over and len(el) > 1:
            rt.orders = O; ix = [int(r.id) for r in el]; s = [getattr(rt, "amt_by_target" if bt else "amt_by_src")(i, -amt if bt else amt, ix) for i in ix]
            with localcontext() as c:
                c.prec = 60
                if bt: ok = close(float(sum(s)), -float(amt), rel=1e-9, abs_=1e-12)
                else: ok = close(float(sum(rt.dxdy(i, v) for i, v in zip(ix, s))), float(amt), rel=1e-9, abs_=1e-12)
                ctx.check("sub-amounts", ok, "sum", f"{s} for {amt}")
                q = [float((r.B + r.S * (r.y + v) / r.yint)) for r, v in zip(el, s) if r.S > r.B * D("1e-7")]
                ctx.check("sub-amounts", not q or max(q) - min(q) <= 1e-7 * max(map(abs, q)), "price", f"{q}")
        ctx.cover("exact", "t" if bt else "s", len(el), "sub" if sub is not None else "all", "over" if over else "ok", min(len(L), 4))
    ctx.run((str(snap(O)), "x"), len(live) > 1)


def alpha(ctx):
    rng = ctx.rng
    S, O, R = book(rng, rng.choice([1, 2, 3, 5, 7, 9, 13]), empty=0, wide=rng.choice(["wide", "narrow", None]))
    rt = router(ctx, AlphaRouter); n = len(R)
    for _ in range(4):
        bt = rng.random() < .5; th = rng.choice([1, 2, 3, n, n + 1, 100]); over = rng.random() < .2; part = rng.random() < .3
        caps = sorted((r.y if bt else r.dx_of_dy(r.y) for r in R), reverse=True); reach = sum(caps[:th])
        amt = D("%.10g" % float(reach * D(repr(round(rng.uniform(1.11, 2), 3) if over else round(rng.uniform(.001, .995), 4)))))
        if amt < D("1e-6"): continue
        ctx.log(bt, str(amt), th, over, part, [tuple(map(str, s)) for s in S])
        kw = dict(support_partial=True) if part else {}
        L, exc, A = run(ctx, rt, O, bt, amt, threshold_orders=th, **kw)
        if over and not part: ctx.check("insufficient", L is None, "alpha-filled", f"{amt} of {reach}: {L}"); continue
        ctx.check("insufficient", L is not None, "alpha-refused", f"{amt} of {reach}: {exc!r}")
        ctx.check("threshold", len(L) <= th and all(a.threshold_orders == th for a in A), "alpha-orders", f"{len(L)} used, {th} allowed")
        whole = not (over and part)
        ty, tx = judge(ctx, L, R, bt, amt if whole else None, "alpha", [R[l[0]] for l in L] if whole else None)
        if th >= n and whole: judge(ctx, L, R, bt, amt, "alpha:all", R)
        # amounts it ranks the orders by
        i = rng.randrange(n); v = R[i].y * D(repr(round(rng.uniform(.01, .95), 3))); rt.orders = O
        ctx.check("sub-amounts", close(float(rt.amt_by_target(i, v)), float(R[i].dx_of_dy(v)), rel=1e-7) and close(float(rt.amt_by_src(i, R[i].dx_of_dy(v))), float(v), rel=1e-7), "alpha-amounts", f"{rt.amt_by_target(i, v)} {R[i].dx_of_dy(v)}")
        fr = AlphaRouter(); L2, _, _ = run(ctx, fr, O, bt, amt, threshold_orders=th, **kw); ctx.check("reuse", sorted(L2) == sorted(L), "reused-router", f"{L} {L2}")
        ctx.cover("alpha", "t" if bt else "s", min(n, 6), "1" if th == 1 else "<" if th < n else ">=", "over" if over else "ok")
    ctx.run((str(snap(O)), "a"), n > 1)


def fast(ctx):
    rng = ctx.rng
    S, O, R = book(rng, rng.choice([1, 2, 3, 4, 6])); live = [r for r in R if r.y]
    if not live: return ctx.skip()
    rt = router(ctx, FastRouter)
    for _ in range(4):
        bt = rng.random() < .5; over = rng.random() < .2; amt, tot = amount(rng, live, bt, over); part = rng.random() < .4
        if amt < D("1e-6") or min(r.y for r in live) < D("1e-6"): continue
        ctx.log(bt, str(amt), over, part, [tuple(map(str, s)) for s in S])
        L, exc, A = run(ctx, rt, O, bt, amt, **(dict(support_partial=True) if part else {}))
        if over and not part: ctx.check("insufficient", L is None, "fast-filled", f"{amt} of {tot}: {L}"); continue
        ctx.check("insufficient", L is not None, "fast-refused", f"{amt} of {tot}: {exc!r}")
        ty, tx = judge(ctx, L, R, bt, None if over else amt, "fast")
        if over: ctx.check("partial", close(float(ty), float(sum(r.y for r in live)), rel=1e-9, abs_=1e-11), "fast-partial", f"{ty}")
        g = greedy(live, amt, bt)
        if g is not None:
            big = lambda l: l[1] > D("1e-10") and l[2] > D("1e-10")
            g = [l for l in g if big(l)]; L = [l for l in L if big(l)]
            ctx.check("greedy", [l[0] for l in L] == [l[0] for l in g], "fast-order", f"used {L}, greedy uses {[(a, float(b), float(c)) for a, b, c in g]}")
            for a, b in zip(L, g): ctx.check("greedy", close(float(a[1]), float(b[1]), rel=1e-8, abs_=1e-9) and close(float(a[2]), float(b[2]), rel=1e-8, abs_=1e-9), "fast-amounts", f"{a} {b}")
        i = rng.choice(live); v = i.y * D(repr(round(rng.uniform(.01, .95), 3))); k = int(i.id)
        ctx.check("sub-amounts", close(float(rt.amt_by_src(k, v)), float(i.dx_of_dy(v)), rel=1e-9) and close(float(rt.amt_by_target(k, i.dx_of_dy(v))), float(v), rel=1e-9), "fast-quotes", f"{rt.amt_by_src(k, v)} {i.dx_of_dy(v)}")
        ctx.cover("fast", "t" if bt else "s", len(live), min(len(L), 4), "over" if over else "ok")
    ctx.run((str(snap(O)), "f"), len(live) > 1)


def floor(ctx):
    """integer arithmetic: whole tokens, every rounding against the trader and by less than it has to be"""
    rng = ctx.rng; ONE = 2 ** 32
    O, P = [], []
    sc = sig(rng, 1e-2, 1e2)
    for _ in range(rng.choice([1, 2, 3, 5])):
        B = int(ONE * sc * rng.uniform(.7, 1.4)); S = rng.choice([0, int(B * 10 ** rng.uniform(-4, 0))]); z = int(sig(rng, 1e3, 1e12)); y = rng.choice([z, rng.randint(1, z)])
        O.append(quiet(Order, B=D(B), S=D(S), y_int=D(z), _y=D(y), _C=D(y))); P.append((B, S, z, y))
    rt = router(ctx, FastRouter, use_floor_division=True); rt.orders = O
    def dx_of(p, dy):
        B, S, z, y = p
        with localcontext() as c: c.prec = 90; a = D(S * y + B * z); return D(dy) * z * z * ONE * ONE / (a * (a - S * D(dy)))
    def dy_of(p, dx):
        B, S, z, y = p
        with localcontext() as c: c.prec = 90; a = D(S * y + B * z) / ONE; return D(dx) * a * a / (z * z + D(S) * a * D(dx) / ONE)
    for i, p in enumerate(P):
        for _ in range(4):
            dy = rng.choice([1, p[3], rng.randint(1, p[3])]); dx = D(rt.amt_by_src(i, D(dy))); t = dx_of(p, dy)
            ctx.check("floor", dx == int(dx) and t <= dx < t + 1, "floor-src", f"{p} selling {dy} asks {dx}, exactly {t}")
            dx = max(1, int(dx_of(p, rng.randint(1, p[3])))); dy = D(rt.amt_by_target(i, D(dx))); t = dy_of(p, dx)
            B, S, z, y = p; t2 = D((y * S + z * B) * dx // ONE)
            low = t * (1 - 1 / (t2 + 1)) - 1
            ctx.check("floor", dy == int(dy) and low - D("1e-9") <= dy <= t, "floor-target", f"{p} for {dx} sells {dy}, exactly {t}")
    ctx.log(P)
    for _ in range(3):
        bt = rng.random() < .5; tot = sum(p[3] if bt else int(dx_of(p, p[3])) for p in P)
        amt = int(tot * rng.uniform(.01, .9))
        if amt < 100: continue
        L, exc, A = run(ctx, rt, O, bt, D(amt))
        if L is None: ctx.check("floor", False, "floor-refused", f"{amt} of {tot}: {exc!r}"); continue
        for i, dy, dx in L:
            ctx.check("floor", dy == int(dy) and dx == int(dx) and dy <= P[i][3], "floor-whole", f"{i}: {dy} {dx} of {P[i]}")
            ctx.check("floor", float(dx) >= float(dx_of(P[i], min(dy, P[i][3]))) * (1 - 1e-12), "floor-favours-trader", f"order {i} {P[i]} sells {dy} for {dx}, exactly {dx_of(P[i], min(dy, P[i][3]))}")
        if bt: ctx.check("floor", sum(l[1] for l in L) == amt, "floor-amount", f"{sum(l[1] for l in L)} of {amt}")
        else: ctx.check("floor", sum(l[2] for l in L) <= amt, "floor-amount", f"{sum(l[2] for l in L)} of {amt}")
    ctx.run((str(P), "i"), len(P) > 1); ctx.cover("floor", len(P))


def selector(ctx):
    """the orders the alpha router admits: no more than allowed, distinct, enough if any such choice is, the largest otherwise"""
    rng = ctx.rng
    import pandas as pd
    for _ in range(12):
        n = rng.randint(1, 14); v = [D(rng.choice([rng.randint(0, 6), rng.randint(1, 1000)])) / rng.choice([1, 4]) for _ in range(n)]
        k = rng.randint(1, n + 3); top = sum(sorted(v, reverse=True)[:k]); t = rng.choice([top, sum(v[:k]), top * D(repr(round(rng.random(), 3))), top + D("0.25"), sum(v), D("0.01"), sum(v) * 2])
        s = quiet(AlphaRouter.gen_one_order_selector, pd.Series(v) if rng.random() < .5 else list(v), t, k)
        got = sum(v[i] for i in s); ctx.log(k, str(t), list(map(str, v)), s)
        ctx.check("selector", len(set(s)) == len(s) <= k and all(0 <= i < n for i in s), "selector-size", f"{s} of {v}, at most {k}")
        ctx.check("selector", got >= t if top >= t else got == top, "selector-sum", f"{s} hold {got}, {t} wanted, {top} possible: {v}")
        # candidates come best first: one is only passed over if the ones before it do not suffice
        m = max(s); need = next((j for j in range(1, n + 1) if sum(sorted(v[:j], reverse=True)[:k]) >= t), n); first = max(need, min(k, n))
        ctx.check("selector", m < first, "selector-late", f"{s} although the first {first} suffice: {v} {t} {k}")
        ctx.run((n, k, str(t), str(v)), n > k); ctx.cover("selector", min(n, 5), "k" if k < n else "all", top >= t)


def filed(ctx):
    rng = ctx.rng; D_ = tempfile.mkdtemp(prefix="verif_p40_")
    try:
        n = rng.choice([1, 3, 9, 10, 11, 14]); cls = rng.choice([ExactRouterX0Y0N, AlphaRouter, FastRouter]); p = dict(use_floor_division=True) if rng.random() < .25 else {}
        fl = bool(p); L = []
        for _ in range(n):
            b = sig(rng, .5, 50, 6); z = sig(rng, 1, 1e5, 6); d = dict(S=sig(rng, .01, 5, 6), B=b, y_int=z, _y=float("%.6g" % (z * rng.choice([1, .5]))))
            d = {k: str(v) if rng.random() < .5 else v for k, v in d.items()}
            if rng.random() < .3: d["name"] = "x"; d["p_high"] = "nonsense"
            L.append(d)
        f = os.path.join(D_, "o.json"); J = json.dumps({"c%d" % i: d for i, d in enumerate(L)} if rng.random() < .5 else L)
        with open(f, "w") as h: h.write(J)
        r = cls(parameters=p); num = rng.choice([None, None, 1, 2, n, n + 2, 12]); fmt = rng.choice([None, "nix", "orders"]); kw = {}
        if num is not None: kw["num_curves"] = num
        if fmt: kw["format_type"] = fmt
        ctx.log(n, kw, fl, L)
        got = quiet(r.make_orders_from_file, f, **kw); nix = None
        if fmt != "orders":
            ctx.check("file", isinstance(got, tuple) and len(got) == 2, "file-format", f"{type(got)}"); got, nix = got
        m = min(n, 10 if num is None else num)
        ctx.check("file", len(got) == m, "file-count", f"{len(got)} of {n} with {kw}")
        for i, o in enumerate(got):
            d = {k: D(L[i][k]) if isinstance(L[i][k], str) else D(L[i][k]) for k in ("S", "B", "y_int", "_y")}
            ctx.check("file", o.y == d["_y"] and o.y_int == d["y_int"] and close(float(o.p_low), float(d["B"] ** 2), rel=1e-14) and close(float(o.p_high), float((d["B"] + d["S"]) ** 2), rel=1e-14), "file-order", f"{o} for {L[i]}")
            if not fl: ctx.check("file", o.S == d["S"] and o.B == d["B"], "file-BS", f"{o.S} {o.B} for {d}")
            else: ctx.check("file", o.B == int(float(d["B"])) * 2 ** 32 and o.S == (int(float(o.p_high.sqrt())) - int(float(o.p_low.sqrt()))) * 2 ** 32, "file-scaled", f"{o.S} {o.B} for {d}")
            if nix is not None: ctx.check("file", list(nix) == list(range(m)) and all(nix[i][f"token_{t}_{k}"] == w for t in "12" for k, w in (("p_a", o.p_high), ("p_b", o.p_low), ("y_int", o.y_int))), "file-table", f"{nix[i]}")
        v = {"debug": rng.random() < .5, "raiseonerror": rng.random() < .5, "assert_precision": rng.randint(0, 9), "use_floor_division": rng.random() < .5, "other": rng.randint(0, 9)}
        v = {k: x for k, x in v.items() if rng.random() < .6}; r = cls(parameters=dict(v)); e = cls()
        ctx.check("parameters", (r.debug, r.raiseonerror, r.assert_precision, r.use_floor_division, r.verbose) == (v.get("debug", False), v.get("raiseonerror", False), v.get("assert_precision", 4), v.get("use_floor_division", False), False) and r.p("other") == v.get("other") and r.p("none", 7) == 7 and r.parameters == v, "parameters", f"{v}")
        ctx.check("parameters", e.parameters == {} and (e.debug, e.verbose, e.raiseonerror, e.assert_precision, e.use_floor_division) == (False, False, False, 4, False), "defaults", f"{e.parameters}")
        e.parameters["z"] = 1; ctx.check("parameters", cls().p("z") is None, "shared-parameters", "")
        e.orders = got; ctx.check("parameters", e.indexes == list(range(len(got))), "indexes", f"{e.indexes}")
        ctx.run((n, str(kw), str(L)), n > 1); ctx.cover("file", n > 10, num is None, fmt, fl)
    finally: shutil.rmtree(D_, ignore_errors=True)


CASES = [("orders", orders, 120, 3000), ("exact", exact, 120, 4000), ("alpha", alpha, 60, 2000), ("fast", fast, 160, 5000), ("floor", floor, 150, 4000), ("selector", selector, 150, 4000), ("filed", filed, 60, 1500)]
