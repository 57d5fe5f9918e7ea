"""strategy descriptions: constructors, rescaling, funding, use in the simulator, record comparison"""
from math import sqrt
from vlib.simlib import *
from vlib.core import close
from vlib.cpclib import quiet, sig
import copy
import pandas as pd
from carbon import CarbonSimulatorUI
from carbon.helpers.strategym import strategy as S

PID = "P30"
RULE = ("strategies from every constructor (range prices in either order, mid/gap/width/utilisation alone and per side, uniswap like, records of each type) with random "
        "numbers over many magnitudes and wrong ones, rescaled, funded and put into a simulator; record sets with random differences; distinct by parameters; "
        "non-trivial if the strategy was accepted")
ASSUME = ["relative accuracy 1e-12, 1e-8 for prices published by the simulator", "widths and gaps of 0 stand for 0.0001, utilisation above 0.999 for 0.999, and holdings of 0 for 1e-10, as documented"]
REQUIRED = ["ranges", "refused", "rescale", "tvl", "simulator", "record", "diff", "original"]
F = [f for f in S.__dataclass_fields__ if f not in ("rescale", "rescaled_fctr")]


def snap(s): return {k: getattr(s, k) for k in S.__dataclass_fields__}


def expect(ctx, s, what, **e):
    for k, v in e.items():
        g = getattr(s, k)
        if isinstance(v, float): ctx.check("ranges", g is not None and close(g, v, 1e-12, 0), f"{what}:{k}", f"{k} is {g}, expected {v}")
        else: ctx.check("ranges", g == v and type(g) == type(v), f"{what}:{k}", f"{k} is {g}, expected {v}")


def refuse(ctx, what, f, exc=(ValueError, TypeError)):
    try:
        r = quiet(f)
    except exc: ctx.check("refused", True, "", ""); return
    ctx.check("refused", False, what, f"accepted: {r}")


def make(ctx):
    """a random strategy and what is expected of it"""
    rng = ctx.rng
    m = sig(rng, 1e-6, 1e6)
    names = rng.choice([dict(), dict(rsk="ETH", csh="USDC"), dict(rsk=None, csh=None), dict(rsk="WBTC")])
    en = dict(rsk=names.get("rsk") or "RSK", csh=names.get("csh") or "CSH")
    amt = lambda: rng.choice([None, 0, 0.0, sig(rng, 1e-3, 1e6)])
    how = rng.choice(["mgw", "mgw", "mgw", "sb", "u3", "plain", "rec:mgw", "rec:fixed", "rec:uv3"])
    ea = lambda a: 1e-10 if a == 0 and a is not None else a
    if how in ("mgw", "rec:mgw"):
        g = rng.choice([0, sig(rng, 1e-6, 3)])
        ws, wb = (rng.choice([0, sig(rng, 1e-5, 10)]) for _ in range(2))
        us, ub = (rng.choice([0, None, 1, 0.9995, rng.uniform(1e-3, 0.999)]) for _ in range(2))
        if rng.random() < 0.4: wb = ws
        if rng.random() < 0.4: ub = us
        w = ws if ws == wb and rng.random() < 0.7 else rng.choice([tuple, list])((ws, wb))
        u = us if us == ub and us is not None and rng.random() < 0.7 else rng.choice([tuple, list])((us, ub))
        a, c = amt(), amt()
        if how == "mgw":
            kw = dict(m=m, g=g, w=w, u=u, amt_rsk=a, amt_csh=c, **names)
            f = lambda: S.from_mgw(**kw)
        else:
            rec = dict(strat_type=rng.choice(["mgw", "MGW"]), strat_m=m, strat_g=g, other="x")
            if rng.random() < 0.5 or not isinstance(w, (int, float)): rec.update(strat_wsell=ws, strat_wbuy=wb)
            else: rec.update(strat_w=w)
            if rng.random() < 0.5 or not isinstance(u, (int, float)): rec.update(strat_usell=us, strat_ubuy=ub)
            else: rec.update(strat_u=u)
            kw = rec; a = c = None; en = dict(rsk="RSK", csh="CSH")
            f = lambda: S.from_dct(rec)
        G = 1 + (g or 1e-4) / 2
        sa, ba = m * G, m / G
        sb, bb = sa * (1 + (ws or 1e-4)), ba / (1 + (wb or 1e-4))
        mu = lambda u, p, q: None if not u else (1 - min(u, 0.999)) * p + min(u, 0.999) * q
        e = dict(p_sell_a=sa, p_sell_b=sb, p_buy_a=ba, p_buy_b=bb, amt_rsk=ea(a), amt_csh=ea(c), psell_marginal=mu(us, sa, sb), pbuy_marginal=mu(ub, ba, bb), y_int_sell=None, y_int_buy=None, rescale=True, **en)
    elif how == "sb":
        ov = rng.random() < 0.2
        lo = m; p = sorted([m * rng.uniform(1, 3) for _ in range(2)]); q = sorted([m * rng.uniform(0.3, 1) if not ov else m * rng.uniform(0.3, 2) for _ in range(2)], reverse=True)
        if rng.random() < 0.2: p[1] = p[0]
        if rng.random() < 0.2: q[1] = q[0]
        if rng.random() < 0.15: q = [p[0], min(q[1], p[0])]; ov = ov and rng.random() < 0.5          # ranges that touch do not overlap
        mix = lambda t: t[0] if t[0] == t[1] and rng.random() < 0.8 else rng.choice([tuple, list])(rng.sample(t, 2))
        kw = dict(sell=mix(p), buy=mix(q)); fixed = True
        if rng.random() < 0.5: kw["fixed"] = fixed = rng.random() < 0.5
        if ov: kw["overlapping"] = True
        f = lambda: S.from_sb(**kw)
        e = dict(p_sell_a=p[0], p_sell_b=p[1], p_buy_a=q[0], p_buy_b=q[1], rescale=not fixed, amt_rsk=None, amt_csh=None, psell_marginal=None, pbuy_marginal=None, rsk="RSK", csh="CSH")
        if q[0] > p[0]: refuse(ctx, "overlapping", lambda: S.from_sb(kw["sell"], kw["buy"]))
    elif how in ("u3", "rec:uv3"):
        hi = m * rng.choice([1, 1 + sig(rng, 1e-3, 10)]); below = rng.random() < 0.5
        fee = rng.choice([None, 0, 0.003, 0.05]); tvl = rng.choice([None, sig(rng, 1, 1e6)])
        if how == "u3":
            kw = dict(p_lo=m, p_hi=hi, start_below=below, **names)
            if tvl is not None or rng.random() < 0.3: kw["tvl_csh"] = tvl
            if fee is not None or rng.random() < 0.3: kw["fee_pc"] = fee
            f = lambda: S.from_u3(**kw)
        else:
            tvl = None; en = dict(rsk="RSK", csh="CSH")
            kw = dict(strat_type="uv3", p_lo=m, p_hi=hi, start_below=int(below), fee_pc=fee)
            f = lambda: S.from_dct(kw)
        T = float(tvl or 1000); sh = sqrt(m * hi) * (fee or 0) / 2; nr = T / sqrt(m * hi)
        e = dict(p_sell_a=m + sh, p_sell_b=hi + sh, p_buy_a=hi - sh, p_buy_b=m - sh, amt_rsk=nr if below else 1e-10, amt_csh=1e-10 if below else T, y_int_sell=nr, y_int_buy=T, psell_marginal=None, pbuy_marginal=None, rescale=False, **en)
        refuse(ctx, "u3:order", lambda: S.from_u3(hi * 1.01, m, True))
    else:
        p = [m, m * rng.uniform(1, 2), m / rng.uniform(1, 2), m / rng.uniform(2, 4)]
        if rng.random() < 0.2: p[1] = p[0]
        if rng.random() < 0.2: p[3] = p[2]
        if how == "plain":
            a, c = amt(), amt()
            kw = dict(zip(("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b"), p), amt_rsk=a, amt_csh=c, **names)
            k = rng.choice(["", "m", "y"])
            if k == "m": kw.update(psell_marginal=p[0] * 0.3 + p[1] * 0.7, **({"pbuy_marginal": p[2] * 0.5 + p[3] * 0.5} if rng.random() < 0.5 else {}))
            if k == "y" and a and c: kw.update(y_int_sell=a * 2, y_int_buy=c * 3)
            f = lambda: S(**kw)
            e = dict(kw, amt_rsk=ea(a), amt_csh=ea(c), rescale=True, **en)
            refuse(ctx, "marginal+capacity", lambda: S(*p, **{rng.choice(["psell_marginal", "pbuy_marginal"]): p[0], rng.choice(["y_int_sell", "y_int_buy"]): 10.0}))
        else:
            kw = dict(strat_type="fixed", **dict(zip(("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b"), p)))
            f = lambda: S.from_dct(kw)
            e = dict(zip(("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b"), p), rescale=False, amt_rsk=None, amt_csh=None, psell_marginal=None, pbuy_marginal=None, rsk="RSK", csh="CSH")
    ctx.log(how, kw)
    k0 = repr(kw)
    s = quiet(f)
    ctx.check("original", repr(kw) == k0, "arguments", "the arguments were changed")
    expect(ctx, s, how, rescaled_fctr=None, **e)
    return how, s, m


def case(ctx):
    rng = ctx.rng
    how, s, m = make(ctx)
    # order of the ranges
    ctx.check("ranges", s.p_sell_a <= s.p_sell_b * (1 + 1e-15) and s.p_buy_a >= s.p_buy_b * (1 - 1e-15), "order", f"{s}")
    ctx.check("ranges", s.slashpair == f"{s.rsk}/{s.csh}" and s.rsk in s.descr and s.csh in s.descr, "names", "")
    before = snap(s)
    # rescale
    new, old = sig(rng, 1e-3, 1e6), rng.choice([None, sig(rng, 1e-3, 1e6)])
    kw = dict(newspot=new) if old is None else dict(newspot=new, oldspot=old)
    force = rng.random() < 0.3
    if force: kw["force"] = True
    f = new / (old if old is not None else 100)
    t = quiet(s.rescale_strat, **kw)
    ctx.check("original", snap(s) == before and t is not s, "rescale:original", "")
    if s.rescale or force:
        for k in ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "psell_marginal", "pbuy_marginal"):
            a, b = getattr(t, k), before[k]
            ctx.check("rescale", (a is None) == (b is None) and (a is None or close(a, b * f, 1e-12, 0)), f"rescale:{k}", f"{k}: {b} -> {a}, factor {f}")
        for k in ("amt_rsk", "amt_csh", "y_int_sell", "rsk", "csh"):
            ctx.check("rescale", getattr(t, k) == before[k], f"rescale:{k}", f"{k} changed")
        ctx.check("rescale", t.rescale is False and close(t.rescaled_fctr, f, 1e-12, 0), "rescale:flags", f"{t}")
        t2 = quiet(t.rescale_strat, 123.0)
        ctx.check("rescale", snap(t2) == snap(t), "rescale:again", f"{t2}")
        if s.rescale: ctx.check("rescale", snap(quiet(S.from_dct, dict(strat_type="fixed", p_sell_a=1., p_sell_b=2., p_buy_a=.5, p_buy_b=.4)).rescale_strat(7))["p_sell_a"] == 1, "rescale:fixed", "")
    else:
        ctx.check("rescale", snap(t) == before, "rescale:not", f"{t} {s}")
    # funding
    spot, pc, tvl = sig(rng, 1e-3, 1e6), rng.choice([0, 1, rng.random()]), sig(rng, 1, 1e6)
    t = s.set_tvl(spot=spot, cashpc=pc, tvl=tvl)
    ctx.check("original", snap(s) == before and t is not s, "tvl:original", "")
    ctx.check("tvl", {k: v for k, v in snap(t).items() if not k.startswith("amt_")} == {k: v for k, v in before.items() if not k.startswith("amt_")}, "tvl:others", f"{t}")
    if before["amt_rsk"] is None and before["amt_csh"] is None:
        ctx.close("tvl", t.amt_csh, tvl * pc, "tvl:csh", 1e-12, 1e-15, ""); ctx.close("tvl", t.amt_csh + t.amt_rsk * spot, tvl, "tvl:total", 1e-12, 1e-12, "")
    else:
        ctx.check("tvl", (t.amt_rsk, t.amt_csh) == (before["amt_rsk"], before["amt_csh"]), "tvl:touched", f"{t}")
    # amounts that are given stay as they are, zero included
    if rng.random() < 0.3:
        z = copy.copy(s); z.amt_rsk, z.amt_csh = rng.choice([(0, 0), (0, None), (None, 0), (0., 0.), (0, 3.), (2., 0)])
        zt = z.set_tvl(spot=spot, cashpc=pc, tvl=tvl)
        ctx.check("tvl", (zt.amt_rsk, zt.amt_csh) == (z.amt_rsk, z.amt_csh), "tvl:zero", f"{zt} from {z}")
    tt = t.set_tvl(spot=spot * 2, cashpc=1 - pc, tvl=tvl * 3)
    ctx.check("tvl", snap(tt) == snap(t), "tvl:twice", f"{tt}")
    # in the simulator
    if s.amt_rsk is not None or s.amt_csh is not None: t = s
    dct = t.dct
    sim = CarbonSimulatorUI(pair=rng.choice([None, t.slashpair]), verbose=False, raiseonerror=False)
    if rng.random() < 0.5 and t.psell_marginal is None and t.pbuy_marginal is None and t.y_int_sell is None:
        r = quiet(lambda: sim.add_strategy(*t.p, pair=t.slashpair))
    else: r = quiet(sim.add_strategy, **dct)
    if not r["success"]:
        # zero seeded sides cannot have a marginal price inside of the range etc: only what the simulator itself refuses
        # ... and a marginal price does not say how full a curve with a single price is
        single = (t.p_sell_a == t.p_sell_b and t.psell_marginal is not None) or (t.p_buy_a == t.p_buy_b and t.pbuy_marginal is not None)
        ctx.check("simulator", single or (t.y_int_sell or 0) and (t.y_int_sell < (t.amt_rsk or 0) or t.y_int_buy < (t.amt_csh or 0)), "refused", f"{r.get('error')} for {dct}")
    else:
        rows = r["orders"].to_dict(orient="records")
        by = {x["tkn"]: x for x in rows}
        ctx.check("simulator", len(rows) == 2 and set(by) == {t.rsk, t.csh}, "orders", f"{rows}")
        for tk, a, b, y, pm, yi in ((t.rsk, t.p_sell_a, t.p_sell_b, t.amt_rsk, t.psell_marginal, t.y_int_sell), (t.csh, t.p_buy_a, t.p_buy_b, t.amt_csh, t.pbuy_marginal, t.y_int_buy)):
            o = by[tk]
            ctx.close("simulator", o["p_start"], a, "p_start", 1e-8, 0, ""); ctx.close("simulator", o["p_end"], b, "p_end", 1e-8, 0, "")
            ctx.close("simulator", o["y"], y or 0, "y", 1e-9, 1e-12, "")
            wide = abs(a / b - 1) if b else 0
            if yi is not None: ctx.close("simulator", o["y_int"], yi, "y_int", 1e-9, 0, "")
            elif pm is not None and y and wide > 1e-7: ctx.close("simulator", o["p_marg"], pm, "p_marg", 1e-8, 1e-10 / wide * pm * 1e-6, "")
            elif pm is None and y: ctx.close("simulator", o["y_int"], y, "y_int", 1e-9, 0, "")
    ctx.check("original", snap(s) == before, "use:original", "")
    # what must not be accepted
    refuse(ctx, "u>1", lambda: S.from_mgw(u=rng.choice([1.0001, 2, (0.5, 1.2), (3, 0.1)])))
    refuse(ctx, "u<0", lambda: S.from_mgw(u=rng.choice([-1e-9, -1, (0.5, -0.1)])))
    refuse(ctx, "w<0", lambda: S.from_mgw(w=rng.choice([-1e-9, -0.5, (0.5, -0.1)])))
    bad = rng.choice([dict(strat_type="nope"), dict(strat_type="mgw", strat_m=100), dict(strat_type="fixed", p_sell_a=1), dict()])
    refuse(ctx, "record", lambda: S.from_dct(bad), (ValueError, KeyError))
    ctx.check("refused", quiet(S.from_dct, bad, raiseonerror=False) is None, "record:none", "")
    ctx.cover(how, s.rescale, t.psell_marginal is not None, t.pbuy_marginal is not None, t.y_int_sell is not None, r["success"])
    ctx.run((how, tuple(map(str, before.values()))), True)


def records(ctx):
    rng = ctx.rng
    cols = ["id0", "comment"] + rng.sample(["a", "b", "c", "spot", "w", "u"], rng.randint(1, 6))
    val = lambda k: {"comment": rng.choice(["x", "y", ""]), "id0": rng.choice(["i", "j"])}.get(k, rng.choice([0, 1, 2.5, "s", "t"]))
    n = rng.randint(1, 6)
    base = {k: val(k) for k in cols}
    rr = {f"r{i}": {k: base[k] if i == 0 or rng.random() < 0.5 else val(k) for k in cols} for i in range(n)}
    if n == 1: ctx.cover("single")
    keep = {k: dict(v) for k, v in rr.items()}
    df = pd.DataFrame(list(rr.values()), index=list(rr), dtype=object)
    ctx.check("record", S.rr(df) == rr and S.r0(rr) == rr["r0"], "rr", f"{S.rr(df)}")
    diff = lambda r: {k: r[k] for k in cols if r[k] != base[k] and k not in ("id0", "comment")}
    for i, r in rr.items():
        ctx.check("diff", S.dr(r, base) == diff(r), "dr", f"{S.dr(r, base)}")
        ctx.check("diff", S.dr(r, base, purge=False) == {k: r[k] if r[k] != base[k] else None for k in cols}, "dr:all", "")
    ctx.check("diff", S.drr(rr) == {i: diff(r) for i, r in rr.items()}, "drr", f"{S.drr(rr)}")
    full = S.drr(rr, baseline=True)
    ctx.check("diff", full["r0"] == {k: v for k, v in base.items() if k not in ("id0", "comment")} and all(full[i] == diff(r) for i, r in rr.items() if i != "r0"), "drr:baseline", f"{full}")
    for com in (False, True):
        if n < 2: break
        d = S.drr(rr, asdf=True, comment=com)
        exp = {k for i, r in rr.items() for k in cols if r[k] != base[k] and r[k] != "" and k != "id0" and (com or k != "comment")}
        ctx.check("diff", set(d.columns) == exp, "df:columns", f"{set(d.columns)} expected {exp}")
        ctx.check("diff", list(d.index) == list(rr) and all(d.loc[i, k] == (r[k] if r[k] != base[k] else "") for i, r in rr.items() for k in exp), "df:values", f"{d}")
    ctx.check("original", rr == keep, "records", "")
    for v in (5, 2.5, "abc", "", 0, float("nan"), None):
        g = S.filter_isnan(v)
        ctx.check("diff", g == ("" if v != v else v), "filter_isnan", f"{v} -> {g}")
    ctx.cover("records", n, len(cols)); ctx.run(("rec", str(rr)), True)


CASES = [("strategies", case, 400, 12000), ("records", records, 60, 1000)]
