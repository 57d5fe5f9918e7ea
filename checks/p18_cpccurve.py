"""construction of levered constant product curves"""
import json
from vlib.cpclib import *

PID = "P18"
RULE = ("curves built with every constructor (k/x/y/p combinations, real holdings below the virtual ones, price ranges, uniswap v2 and v3 pools, carbon orders "
        "from prices in either convention or from A and B, full, partly used and empty, narrow to wide) over random pairs and magnitudes; every published "
        "quantity compared with an independent high-precision description; invalid arguments must be refused; distinct by constructor and numbers")
ASSUME = ["relative tolerance 1e-12 plus the cancellation a square-root difference has in double precision for narrow ranges"]
REQUIRED = ["state", "bounds", "price", "tvl", "names", "boundary", "refuse", "roundtrip", "frozen"]


def check_state(ctx, c, r, i):
    t = tol(i)
    ctx.close("state", c.k, r.k, "k", t, 0, f"{i['how']}: k")
    ctx.close("state", c.x, r.x, "x", t, 0, f"{i['how']}: virtual x")
    ctx.close("state", c.y, r.y, "y", t, 0, f"{i['how']}: virtual y")
    ctx.close("state", c.x_act, r.xa, "x_act", t, t * float(r.x), f"{i['how']}: real x")
    ctx.close("state", c.y_act, r.ya, "y_act", t, t * float(r.y), f"{i['how']}: real y")
    ctx.close("price", c.p, r.p, "p", t, 0, f"{i['how']}: price")
    prim = c.pairo.isprimary
    ctx.close("price", c.pp, r.p if prim else 1 / r.p, "pp", t, 0, f"{i['how']}: price of the primary pair")
    ctx.close("state", c.kbar, r.k.sqrt(), "kbar", t, 0, "")
    # bounds
    ctx.close("bounds", c.x_min, r.xmin, "x_min", t, t * float(r.x), "x_min")
    ctx.close("bounds", c.y_min, r.ymin, "y_min", t, t * float(r.y), "y_min")
    amp = lambda v, m: t * (1 + float(v / m)) if m > 0 else None
    eps = 1e-9
    if r.ymin > d(eps) * r.y:
        e = r.k / r.ymin
        tt = amp(r.y, r.ymin)
        ctx.close("bounds", c.x_max, e, "x_max", tt, 0, "x_max"); ctx.close("bounds", c.p_min, r.ymin / e, "p_min", 2 * tt, 0, "p_min")
    elif r.ya == r.y:
        ctx.check("bounds", c.x_max is None or c.x_max > 1e9 * c.x, "x_max:unlimited", f"{c.x_max}")
    if r.xmin > d(eps) * r.x:
        e = r.k / r.xmin
        tt = amp(r.x, r.xmin)
        ctx.close("bounds", c.y_max, e, "y_max", tt, 0, "y_max"); ctx.close("bounds", c.p_max, e / r.xmin, "p_max", 2 * tt, 0, "p_max")
    elif r.xa == r.x:
        ctx.check("bounds", c.y_max is None or c.y_max > 1e9 * c.y, "y_max:unlimited", f"{c.y_max}")
    if r.xmin > 0 and r.ymin > 0 and c.p_min is not None and c.p_max is not None:
        ctx.check("bounds", c.p_min <= c.p * (1 + 4 * t) and c.p <= c.p_max * (1 + 4 * t), "p-order", f"{c.p_min} {c.p} {c.p_max}")
    for got, exp in ((c.dx_min, -r.xa), (c.dy_min, -r.ya)):
        ctx.close("bounds", got, exp, "dmin", t, t * max(float(r.x), 0) if got is c.dx_min else t * float(r.y), "largest outflow")
    # boundary flags, well away from their threshold
    for flag, real, virt, name in ((c.at_xmin, r.xa, r.x, "at_xmin"), (c.at_ymax, r.xa, r.x, "at_ymax")):
        if virt > real:
            q = virt / (virt - real) - 1
            if abs(q - D("1e-6")) > D("2e-7"):
                ctx.check("boundary", flag is (q < D("1e-6")), name, f"{flag}: real {real} of {virt}")
    if r.y > r.ya:
        q = abs(r.x / (r.k / (r.y - r.ya)) - 1)
        if abs(q - D("1e-6")) > D("2e-7"):
            ctx.check("boundary", c.at_xmax is (q < D("1e-6")) and c.at_ymin is c.at_xmax, "at_xmax", f"{c.at_xmax}: real {r.ya} of {r.y}")
    ctx.check("boundary", c.at_boundary == (c.at_xmin or c.at_xmax), "at_boundary", "")
    # value
    m = ctx.rng.choice([1.0, 1.0, 2000.0])
    tv = (r.p * r.xa + r.ya) * d(m)
    ab = t * 4 * float((r.p * r.x + r.y) * d(m))
    ctx.close("tvl", c.tvl(mult=m), tv, "tvl", t, ab, "tvl in the quote token")
    ctx.close("tvl", c.tvl(c.tknq, mult=m), tv, "tvl:q", t, ab, "")
    ctx.close("tvl", c.tvl(c.tknb, mult=m), tv / r.p, "tvl:b", t, ab / float(r.p), "tvl in the base token")
    x = c.tvl(c.tknb, mult=m, incltkn=True)
    ctx.check("tvl", x[1:] == (c.tknb, m) and c.tvl(incltkn=True)[1:] == (c.tknq, 1.0), "tvl:units", f"{x}")
    ctx.check("tvl", c.tvl("NOPE", raiseonerror=False) is None, "tvl:foreign", "")
    try:
        c.tvl("NOPE"); ctx.check("tvl", False, "tvl:accepted", "")
    except ValueError: pass


def case(ctx):
    rng = ctx.rng
    st = rng.getstate()
    c, r, i = rand_curve(rng)
    ctx.log(i["how"], repr(c))
    check_state(ctx, c, r, i)
    b, q = i["pair"].split("/")
    sh = lambda t: t.split("-")[0]
    ctx.check("names", (c.pair, c.tknb, c.tknx, c.tknq, c.tkny) == (i["pair"], b, b, q, q), "pair", f"{c.pair} expected {i['pair']}")
    ctx.check("names", (c.tknbp, c.tknxp, c.tknqp, c.tknyp, c.pairp, c.p_convention()) == (sh(b), sh(b), sh(q), sh(q), f"{sh(b)}/{sh(q)}", f"{sh(q)} per {sh(b)}"), "short", "")
    ctx.check("names", (c.cid, c.fee, c.descr) == (i["cid"], i["fee"], i["descr"]), "meta", f"{c.cid} {c.fee} {c.descr}")
    ctx.check("names", c.constr == (i["constr"] or c.constr), "constr", f"{c.constr} for {i['how']}")
    for k, v in i["par"].items():
        ctx.check("names", c.P(k) == v and c.params[k] == v, "params", f"{k}={c.P(k)} expected {v}")
    ctx.check("names", c.P("nope", 5) == 5 and c.P("nope") is None and c.P("a:b", 3) == 3, "params:default", "")
    # parameters given are kept and reachable by path
    kw = dict(pair=i["pair"], cid=1, fee=0, descr="d")
    ps = dict(exchange="uni", deep=dict(a=1, b=dict(c=2)))
    for mk in (lambda: CPC.from_kx(k=c.k, x=c.x, params=ps, **kw), lambda: CPC.from_univ3(Pmarg=1, uniL=5, uniPa=.5, uniPb=2, params=ps, **kw),
               lambda: CPC.from_carbon(yint=1, y=1, pa=2, pb=1, tkny=q, params=ps, **kw), lambda: CPC.from_kx(k=c.k, x=c.x, params=str(ps), **kw),
               lambda: CPC.from_kx(k=c.k, x=c.x, params=json.dumps(dict(ps, live=True, gone=None)), **kw)):
        e = mk()
        if "gone" in e.params: ctx.check("names", e.P("gone", 5) is None and e.P("live") is True, "params:null", f"{e.P('gone', 5)}")
        ctx.check("names", (e.P("exchange"), e.P("deep:a"), e.P("deep:b:c"), e.P(" deep:x", 9)) == ("uni", 1, 2, 9), "params:path", f"{e.params}")
    ctx.check("names", ps == dict(exchange="uni", deep=dict(a=1, b=dict(c=2))), "params:mutated", f"{ps}")
    # what the constructor reports is what it was given, also if the extra parameters have such a name
    own = dict(L=-1, y=-2, yint=-3, A=-4, B=-5, z=9)
    e = CPC.from_univ3(Pmarg=1, uniL=5, uniPa=.5, uniPb=2, params=own, **kw); ctx.check("names", e.P("L") == 5 and e.P("z") == 9, "params:own", f"{e.params}")
    e = CPC.from_carbon(yint=3, y=2, pa=4, pb=1, tkny=q, params=own, **kw); ctx.check("names", (e.P("y"), e.P("yint"), e.P("A"), e.P("B"), e.P("z")) == (2, 3, 1, 1, 9), "params:own", f"{e.params}")
    # dictionary representation
    c2 = CPC.from_dict(c.asdict())
    ctx.check("roundtrip", c2 == c and c2.params == c.params and c2.constr == c.constr and hash(c2) == hash(c), "dict", f"{c2}")
    # rebuild the curve from its published state
    t = tol(i)
    for mk in (lambda: CPC.from_kx(c.k, c.x, c.x_act, c.y_act, **kw), lambda: CPC.from_ky(c.k, c.y, c.x_act, c.y_act, **kw), lambda: CPC.from_xy(c.x, c.y, c.x_act, c.y_act, **kw),
               lambda: CPC.from_pk(c.p, c.k, c.x_act, c.y_act, **kw), lambda: CPC.from_px(c.p, c.x, c.x_act, c.y_act, **kw), lambda: CPC.from_py(c.p, c.y, c.x_act, c.y_act, **kw)):
        e = quiet(mk)
        for a in ("k", "x", "y", "x_act", "y_act", "p"):
            ctx.close("roundtrip", getattr(e, a), getattr(c, a), "rebuild:" + a, 1e-13, 0, f"{a} of the curve rebuilt as {e.constr}")
    if c.p_min is not None and c.p_max is not None and c.x_act > 1e-9 * c.x and c.y_act > 1e-9 * c.y:
        e = CPC.from_pkpp(c.p, c.k, c.p_min, c.p_max, **kw)
        for a, s in (("x_act", c.x), ("y_act", c.y)):
            ctx.close("roundtrip", getattr(e, a), getattr(c, a), "rebuild:pkpp", 1e-12, 1e-12 * s, a)
    for a, v in (("k", 1.0), ("x", 1.0), ("pair", "A/B"), ("fee", 1)):
        try:
            setattr(c, a, v)
            ctx.check("frozen", False, "frozen", f"{a} can be overwritten")
        except Exception:
            ctx.check("frozen", True, "", "")
    ctx.cover(i["how"], "w%s" % i["width"])
    ctx.run((i["how"], c.k, c.x, c.x_act, c.y_act, c.pair), True)
    ctx.sample(repr(c)[:200])


def refuse(ctx):
    rng = ctx.rng
    pr = pair(rng); b, q = pr.split("/")
    K = dict(pair=pr, cid="1", fee=0.1, descr="d")
    p = sig(rng, 1e-3, 1e3)
    y = sig(rng, 1, 1e3)
    car = dict(K, yint=y, y=y, pa=p * 1.1, pb=p, tkny=q)
    ab = dict(K, yint=y, y=y, A=0.1, B=1.0, tkny=q)
    uv3 = dict(K, Pmarg=p, uniL=y, uniPa=p / 2, uniPb=p * 2)
    wo = lambda dct, *ks, **kw: {k: v for k, v in {**dct, **kw}.items() if k not in ks}
    bad = [(CPC.from_univ2, a) for a in (dict(K, x_tknb=1.0), dict(K, y_tknq=1.0), dict(K, k=1.0), dict(K), dict(K, x_tknb=1.0, y_tknq=1.0, k=1.0))]
    bad += [(CPC.from_univ2, wo(dict(K, x_tknb=1.0, y_tknq=1.0), f)) for f in K]
    bad += [(CPC.from_univ3, wo(uv3, **a)) for a in (dict(uniPa=p * 2, uniPb=p / 2), dict(uniPa=p), dict(uniPb=p), dict(uniPa=p * 1.1), dict(uniPb=p * 0.9), dict(uniPa=p, uniPb=p))]
    bad += [(CPC.from_carbon, wo(car, f)) for f in ("yint", "y", "pa", "pb", "pair", "tkny")]
    bad += [(CPC.from_carbon, wo(ab, f)) for f in ("A", "B")]
    bad += [(CPC.from_carbon, a) for a in (dict(car, y=y * 1.001), dict(car, y=-y * 0.001), dict(car, pa=p, pb=p * 1.1), dict(car, tkny="NOPE"), dict(car, A=0.1), dict(car, B=0.1),
                                           dict(car, A=0.1, B=0.1), dict(ab, A=-0.1), dict(ab, isdydx=False), dict(ab, pa=1.0), dict(ab, y=y * 2), dict(car, isdydx=False, tkny=b))]
    j = 0
    for f, a in bad:
        try:
            c = f(**a)
            ctx.check("refuse", False, f"accepted:{f.__name__}", f"{a} -> {c}")
        except (AssertionError, ValueError) as e:
            ctx.check("refuse", True, "", "")
    ctx.check("refuse", CPC.from_carbon(**car).pair == f"{b}/{q}" and CPC.from_carbon(**ab).pair == f"{b}/{q}" and CPC.from_univ3(**uv3).pair == pr, "valid", "")
    for v in ("z", 0, "", 5):
        c = CPC.from_kx(k=1.0, x=1.0)
        ctx.check("refuse", c.setcid(v) is c and c.cid == v, "setcid", "")
        try:
            c.setcid("w"); ctx.check("refuse", False, "setcid:twice", f"after {v!r}")
        except AssertionError: pass
    ctx.run((pr, p, y), True)


CASES = [("curves", case, 1500, 40000), ("refuse", refuse, 60, 1000)]
