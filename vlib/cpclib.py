"""independent description of (levered) constant product curves: y = k / x with the real holdings xa, ya"""
from decimal import Decimal as D, localcontext
import contextlib, io, math
from vlib.core import close
import carbon.tools.cpc as M
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer, CPCInverter, Pair

TOKENS = ["ETH", "USDC", "WBTC", "LINK", "DAI", "BNT", "USDT", "AAVE", "XX", "WETH-6Cc2", "USDC-eB48", "aave", "LP-A-1"]


def d(x):
    return x if isinstance(x, D) else D(repr(float(x))) if not isinstance(x, int) else D(x)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def sig(rng, lo, hi, n=12):
    return float(f"%.{n}g" % (10 ** rng.uniform(math.log10(lo), math.log10(hi))))


def pair(rng, tokens=TOKENS):
    a, b = rng.sample(tokens, 2)
    return f"{a}/{b}"


class Ref:
    """k, x (virtual), xa, ya (real)"""
    def __init__(s, k, x, xa, ya):
        s.k, s.x, s.xa, s.ya = d(k), d(x), d(xa), d(ya)
    @property
    def y(s): return s.k / s.x
    @property
    def p(s): return s.k / s.x / s.x
    @property
    def xmin(s): return s.x - s.xa
    @property
    def ymin(s): return s.y - s.ya
    def x_at(s, p): return (s.k / d(p)).sqrt()
    def y_at(s, p): return (s.k * d(p)).sqrt()


def rand_curve(rng, pr=None, how=None, p=None, size=None, **kw):
    """a random curve with its reference and the width of the range (None: unlimited); p: y per x"""
    pr = pr or pair(rng)
    p = p if p is not None else sig(rng, 1e-4, 1e4)
    how = how or rng.choice(["kx", "ky", "xy", "pk", "px", "py", "act", "pkpp", "univ2", "univ2k", "univ2x", "univ3", "carbon", "carbon", "carbonAB"])
    size = size or sig(rng, 1, 1e6)                     # of y
    y = size; x = size / p; k = x * y
    kw = dict(pair=pr, cid=kw.get("cid", rng.choice(["c1", "0x12", 7])), fee=rng.choice([0, 0.003, 0.01]), descr=rng.choice(["d", "UniV3 0.3%"]))
    K = dict(kw)
    X, Y, P = d(x), d(y), d(p)
    width = None
    par = {}
    if how == "kx": c, r = CPC.from_kx(k=k, x=x, **K), Ref(k, x, x, d(k) / X)
    elif how == "ky": c, r = CPC.from_ky(k=k, y=y, **K), Ref(k, d(k) / Y, d(k) / Y, y)
    elif how == "xy": c, r = CPC.from_xy(x=x, y=y, **K), Ref(X * Y, X, X, Y)
    elif how == "pk": c, r = CPC.from_pk(p=p, k=k, **K), Ref(k, (d(k) / P).sqrt(), (d(k) / P).sqrt(), (d(k) * P).sqrt())
    elif how == "px": c, r = CPC.from_px(p=p, x=x, **K), Ref(X * X * P, X, X, X * P)
    elif how == "py": c, r = CPC.from_py(p=p, y=y, **K), Ref(Y * Y / P, Y / P, Y / P, Y)
    elif how == "act":
        xa, ya = x * rng.choice([0, 0.1, 0.5, 0.9999, 1]), y * rng.choice([0, 0.01, 0.7, 0.9999, 1])
        f = rng.choice(["xy", "kx", "px"])
        if f == "xy": c, r = CPC.from_xy(x=x, y=y, x_act=xa, y_act=ya, **K), Ref(X * Y, X, xa, ya)
        elif f == "kx": c, r = CPC.from_kx(k=k, x=x, x_act=xa, y_act=ya, **K), Ref(k, x, xa, ya)
        else: c, r = CPC.from_px(p=p, x=x, x_act=xa, y_act=ya, **K), Ref(X * X * P, X, xa, ya)
        width = 1.0
    elif how in ("pkpp", "univ3"):
        width = rng.choice([1e-4, 0.01, 0.3, 3, 100, 1e7])
        lo, hi = p / (1 + width * rng.uniform(0.05, 1)), p * (1 + width * rng.uniform(0.05, 1))
        if how == "pkpp":
            which = rng.random()
            if which < 0.15: lo = None
            elif which < 0.3: hi = None
            elif which < 0.4: lo = 0
            c = CPC.from_pkpp(p=p, k=k, p_min=lo, p_max=hi, **K)
        else:
            L = float("%.12g" % math.sqrt(k)); k = L * L
            c = CPC.from_univ3(Pmarg=p, uniL=L, uniPa=lo, uniPb=hi, **K)
            par = {"L": L}; k = d(L) * d(L)
        k = d(k)
        r = Ref(k, (k / P).sqrt(), (k / P).sqrt() - (k / d(hi if hi is not None else p)).sqrt(), (k * P).sqrt() - (k * d(lo if lo is not None else p)).sqrt())
    elif how == "univ2": c, r = CPC.from_univ2(x_tknb=x, y_tknq=y, **K), Ref(X * Y, X, X, Y)
    elif how == "univ2k": c, r = CPC.from_univ2(x_tknb=x, k=k, **K), Ref(k, X, X, d(k) / X)
    elif how == "univ2x": c, r = CPC.from_univ2(y_tknq=y, k=k, **K), Ref(k, d(k) / Y, d(k) / Y, Y)
    elif how in ("carbon", "carbonAB"):
        tb, tq = pr.split("/")
        tkny = rng.choice([tb, tq])
        width = rng.choice([1e-3, 0.01, 0.3, 3, 100, 1e7])
        pb = p; pa = p * (1 + width)                    # dy/dx with y = tkny
        if rng.random() < 0.08 and how == "carbon": pa = pb
        yint = size; yy = yint * rng.choice([1, 1, 0, 0.5, rng.random()])
        A = B = None
        if how == "carbonAB":
            A, B = math.sqrt(pa) - math.sqrt(pb), math.sqrt(pb)
            c = CPC.from_carbon(yint=yint, y=yy, A=A, B=B, tkny=tkny, **K)
            A, B = d(A), d(B)
        else:
            dydx = rng.random() < 0.5
            qa, qb = (pa, pb) if dydx or tkny == tq else (1 / pa, 1 / pb)
            c = CPC.from_carbon(yint=yint, y=yy, pa=qa, pb=qb, tkny=tkny, isdydx=dydx, **K)
            PA, PB = (d(qa), d(qb)) if dydx or tkny == tq else (1 / d(qa), 1 / d(qb))
            if pa == pb: PA, PB = PA * D("1.0000001"), PB / D("1.0000001"); width = 2e-7
            A, B = PA.sqrt() - PB.sqrt(), PB.sqrt()
        yv = d(yy) + d(yint) * B / A
        kk = d(yint) ** 2 / A ** 2
        r = Ref(kk, kk / yv, 0, yy)
        kw["pair"] = f"{tb if tkny == tq else tq}/{tkny}"
        par = dict(y=yy, yint=yint)
    constr = {"act": None, "univ2k": "uv2", "univ2": "uv2", "univ2x": "uv2", "univ3": "uv3", "carbon": "carb", "carbonAB": "carb"}.get(how, how)
    return c, r, dict(how=how, width=width, constr=constr, par=par, **kw)


def tol(info):
    """relative error that square roots in double precision leave in the holdings of a narrow range"""
    return 1e-13 if info["width"] is None else 1e-12 + 4e-15 / min(info["width"], 1) * (1 + 1 / min(info["width"], 1) * 0)
