"""Uniswap v3 pool records (carbon/tools/univ3calc.py)"""
import math
from dataclasses import asdict, replace
from decimal import Decimal as D, localcontext
from vlib.core import close
from vlib.cpclib import quiet, sig
from carbon.tools.univ3calc import Univ3Calculator as U3
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer

PID = "P32"
RULE = ("pool records with ticks over the whole Uniswap range, prices anywhere within the tick range (also next to its ends), liquidity over 30 orders of magnitude, tokens of 0 to 24 decimals given by name or address, all fee levels, as numbers or strings; "
        "distinct by record; all are non-trivial")
ASSUME = ["the square root price and the tick of a record agree", "float accuracy: 1e-9 of the virtual reserves"]
REQUIRED = ["token", "range", "price", "liquidity", "reserve", "tvl", "curve", "refused", "text"]
SZ = {100: 1, 500: 10, 3000: 60, 10000: 200}
ADDR = {"USDC": ("0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48", 6), "WETH": ("0xC02aaA39b223FE8D0A0e5C4F27eAD9083C756Cc2", 18)}


def record(rng, lim=887000):
    fee = rng.choice(list(SZ)); sz = SZ[fee]
    tick = rng.choice([rng.randint(-lim, lim), rng.randint(-40000, 40000), rng.randint(-300, 300), sz * rng.randint(-50, 50), sz * rng.randint(-50, 50) - 1])
    fr = D(rng.choice([rng.random(), rng.random(), 1e-6, 1 - 1e-6, 0.5]))
    with localcontext() as c:
        c.prec = 70
        sp = int(((tick + fr) * D("1.0001").ln() / 2).exp() * 2 ** 96)
    liq = rng.choice([rng.getrandbits(rng.randint(10, 110)) + 1, rng.randint(1, 1000) * 10 ** rng.randint(0, 28)])
    return dict(sp96=sp, tick=tick, liquidity=liq, fee_const=fee), fr


def exact(r, d0, d1):
    with localcontext() as c:
        c.prec = 70
        sz = SZ[r["fee_const"]]; ta = r["tick"] - r["tick"] % sz; tb = ta + sz
        ln = D("1.0001").ln(); raw = lambda t: (t * ln).exp()
        sc = D(10) ** (d0 - d1)
        s = D(r["sp96"]) / 2 ** 96; sa, sb = (ta * ln / 2).exp(), (tb * ln / 2).exp()
        L = D(r["liquidity"])
        x = L * (1 / s - 1 / sb) / D(10) ** d0; y = L * (s - sa) / D(10) ** d1
        vx, vy = L / s / D(10) ** d0, L * s / D(10) ** d1
        return dict(ta=ta, tb=tb, raw=(float(raw(ta)), float(raw(tb))), pa=float(raw(ta) * sc), pb=float(raw(tb) * sc), p=float(s * s * sc), L=float(L / (D(10) ** (d0 + d1)).sqrt()), x=float(x), y=float(y), vx=float(vx), vy=float(vy))


def tokens(rng):
    """(token 0 as given, its name, decimals given, its decimals), ..."""
    def one(skip=None):
        if rng.random() < 0.5:
            n = rng.choice([k for k in ADDR if k != skip]); g = rng.choice([n, ADDR[n][0]])
            d = rng.choice([None, ADDR[n][1]]); return g, n, d, ADDR[n][1]
        n = rng.choice(["LINK", "WBTC", "FOO", "0x" + "12" * 20]); d = rng.choice([0, 2, 6, 8, 18, 24]); return n, n, d, d
    a = one(); b = one(a[1])
    return a, b


def pool(ctx):
    rng = ctx.rng
    for _ in range(4):
        r, fr = record(rng); (g0, n0, dg0, d0), (g1, n1, dg1, d1) = tokens(rng)
        if n0 == n1: n1 = g1 = n1 + "X"
        e = exact(r, d0, d1); as_str = rng.random() < 0.5
        k = {a: (str(v) if as_str and a != "fee_const" else v) for a, v in r.items()}
        ctx.log(g0, g1, dg0, dg1, k)
        if dg0 is None and dg1 is None and rng.random() < 0.7:
            u = U3.from_dict(dict(token0=g0, token1=g1, sqrt_price_q96=k["sp96"], tick=k["tick"], liquidity=k["liquidity"]), r["fee_const"])
        else: u = U3(tkn0=g0, tkn1=g1, tkn0decv=dg0, tkn1decv=dg1, **k)
        ctx.check("token", (u.tkn0, u.tkn1, u.tkn0dec, u.tkn1dec, u.pair, u.price_convention) == (n0, n1, d0, d1, f"{n0}/{n1}", f"{n0}/{n1} [{n1} per {n0}]"), "tokens", f"{u} {u.tkn0dec} {u.tkn1dec}, given {g0} {dg0} {g1} {dg1}")
        ctx.check("token", asdict(u) == dict(tkn0=n0, tkn1=n1, **r) and u == U3(tkn0=n0, tkn1=n1, tkn0decv=d0, tkn1decv=d1, **r), "record", f"{asdict(u)}")
        ctx.check("range", u.tickab == (e["ta"], e["tb"]) and u.ticksize == SZ[r["fee_const"]] and u.fee == r["fee_const"] / 1e6, "ticks", f"{u.tickab} of {r}")
        ctx.check("range", all(close(a, b, 1e-9, 0) for a, b in zip(u.papb_raw, e["raw"])), "raw", f"{u.papb_raw}")
        for f in ("papb", "papb_tkn1_per_tkn0"): ctx.check("range", close(getattr(u, f)[0], e["pa"], 1e-9, 0) and close(getattr(u, f)[1], e["pb"], 1e-9, 0), f, f"{getattr(u, f)} expected {e['pa']} {e['pb']}")
        ctx.check("range", all(close(a * b, 1, 1e-12, 0) for a, b in zip(u.papb, u.papb_tkn0_per_tkn1)), "inverse", "")
        ctx.check("price", close(u.p, e["p"], 1e-12, 0) and close(u.price_tkn1_per_tkn0, e["p"], 1e-12, 0) and close(u.price_tkn0_per_tkn1, 1 / e["p"], 1e-12, 0), "price", f"{u.p} expected {e['p']}")
        ctx.check("price", close(u.decf, 10. ** (d0 - d1), 1e-12, 0) and close(u.dec_factor_wei0_per_wei1, 10. ** (d0 - d1), 1e-12, 0), "decf", f"{u.decf}")
        ctx.check("price", close(U3.sp96_from_price(e["p"] * 10. ** (d1 - d0)), r["sp96"], 1e-12, 0), "sp96", "")
        ctx.check("liquidity", all(close(v, w, 1e-12, 0) for v, w in ((u.L, e["L"]), (u.kbar, e["L"]), (u.k, e["L"] ** 2), (u.L2, e["L"] ** 2), (u.Lsquared, e["L"] ** 2))), "L", f"{u.L} expected {e['L']}")
        x, y = u.tkn0reserve(), u.tkn1reserve()
        ctx.check("reserve", close(x, e["x"], 1e-9, 1e-9 * e["vx"]), "reserve0", f"{x} {n0}, expected {e['x']} (virtual {e['vx']})")
        ctx.check("reserve", close(y, e["y"], 1e-9, 1e-9 * e["vy"]), "reserve1", f"{y} {n1}, expected {e['y']} (virtual {e['vy']})")
        ctx.check("reserve", u.tkn0reserve(incltoken=True) == (x, n0) and u.tkn1reserve(incltoken=True) == (y, n1), "incltoken", "")
        t1 = e["x"] * e["p"] + e["y"]
        for f, tk, w in ((False, n1, t1), (True, n0, t1 / e["p"])):
            t = u.tvl(astkn0=f); ctx.check("tvl", close(t, w, 1e-8, 2e-9 * (e["vy"] if not f else e["vx"])), "tvl", f"{t} {tk}, expected {w}")
            ctx.check("tvl", u.tvl(astkn0=f, incltoken=True) == (t, tk), "tvl:token", "")
        ctx.check("tvl", u.tvl() == u.tvl(astkn0=False), "tvl:default", "")
        # the same pool as a curve
        kw = dict(cid="c%d" % rng.randint(0, 99), descr="d")
        if rng.random() < 0.5: kw["params"] = dict(exchange="uni")
        cp = u.cpc_params(**kw)
        ctx.check("curve", set(cp) == {"Pmarg", "uniL", "uniPa", "uniPb", "pair", "fee"} | set(kw) and all(cp[a] == b for a, b in kw.items()), "params", f"{cp}")
        ctx.check("curve", (cp["Pmarg"], cp["uniL"], cp["uniPa"], cp["uniPb"], cp["pair"], cp["fee"]) == (u.p, u.L, *u.papb, u.pair, u.fee), "params:values", f"{cp}")
        if 1e-5 <= fr <= 1 - D("1e-5") and -300000 < r["tick"] < 300000:
            c = CPC.from_univ3(**cp)
            ctx.check("curve", close(c.p, e["p"], 1e-9, 0) and close(c.k, e["L"] ** 2, 1e-9, 0) and close(c.x, e["vx"], 1e-9, 0) and close(c.y, e["vy"], 1e-9, 0), "curve", f"{c}")
            ctx.check("curve", close(c.x_act, e["x"], 1e-9, 1e-8 * e["vx"]) and close(c.y_act, e["y"], 1e-9, 1e-8 * e["vy"]), "curve:reserves", f"{c.x_act} {c.y_act} expected {e['x']} {e['y']}")
            ctx.check("curve", close(c.p_min, e["pa"], 1e-7, 0) and close(c.p_max, e["pb"], 1e-7, 0) and c.constr == "uv3" and c.params["L"] == u.L and c.fee == u.fee and c.pair == u.pair, "curve:range", f"{c.p_min} {c.p_max}")
            ctx.check("curve", ("exchange" in c.params) == ("params" in kw), "curve:params", "")
        ctx.check("text", n0 in u.info() and n1 in u.info() and f"{u.fee * 100:.02f}%" in u.info() and repr(u.p) in u.info(), "info", u.info())
        ctx.cover(d0, d1, r["fee_const"]); ctx.run((g0, g1, tuple(r.items())), True)
    # not a pool
    r, _ = record(rng)
    for bad in (dict(fee_const=rng.choice([0, 1, 250, 501, -500])), dict(sp96="x"), dict(tick=None), dict(liquidity="1e"), dict(tkn0="NOPE")):
        try: U3(**{**dict(tkn0="USDC", tkn1="WETH"), **r, **bad}); ctx.check("refused", False, "accepted", f"{bad}")
        except (AssertionError, ValueError, TypeError, KeyError): ctx.ev("refused")
    u = U3(tkn0="USDC", tkn1="WETH", **r)
    try: u.tick = 5; ctx.check("refused", False, "frozen", "")
    except AttributeError: ctx.ev("refused")
    for pa, p, pb in ((2, 1, 3), (2, 4, 3), (3, 2, 1)):
        try: CPC.from_univ3(Pmarg=p, uniL=1, uniPa=pa, uniPb=pb, pair="A/B", cid="", fee=0, descr=""); ctx.check("refused", False, "outside", "")
        except AssertionError: ctx.ev("refused")


CASES = [("pool", pool, 400, 30000)]
