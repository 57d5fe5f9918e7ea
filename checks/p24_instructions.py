"""trade instructions of optimizer results"""
from vlib.cpclib import *
import pandas as pd
from carbon.tools.optimizer import CPCArbOptimizer as OPT
from checks.p22_optimize import market, ref_of, state

PID = "P24"
TI = OPT.TradeInstruction
RULE = ("trade instructions of the results of all three optimizers on random markets (all kinds of curves, virtual holdings from 1e-3 to 1e13, with and without "
        "anything to trade) in all formats, and instructions made directly from random curves and amounts, valid and invalid; distinct by market or amounts; "
        "non-trivial with at least one instruction that trades")
ASSUME = ["amounts below 1e-10 of the virtual holdings of a curve are rounding noise: such a trade may be stated as empty", "for convex results: below 1e-6 of the virtual holdings (accuracy of the solver)"]
REQUIRED = ["complete", "signs", "price", "formats", "aggregate", "direct", "refused", "empty"]


def get(ctx, r, what):
    try:
        return r.trade_instructions()
    except ValueError as e:
        ctx.check("complete", False, f"{what}:no-instructions", f"{e}")


def judge(ctx, curves, dxs, dys, r, what, noise):
    tis = get(ctx, r, what)
    if tis is None: return 0
    exp = [(c, float(dx), float(dy)) for c, dx, dy in zip(curves, dxs, dys) if dx != 0 or dy != 0]
    ctx.check("complete", isinstance(tis, tuple) and [t.cid for t in tis] == [str(c.cid) for c, _, _ in exp], f"{what}:curves", f"{[t.cid for t in tis]} expected {[c.cid for c, _, _ in exp]}")
    net, tot = {}, {}
    n = 0
    for t, (c, dx, dy) in zip(tis, exp):
        small = abs(dx) <= noise * c.x and abs(dy) <= noise * c.y
        ctx.check("signs", t.amtin >= 0 >= t.amtout and {t.tknin, t.tknout} == {c.tknx, c.tkny} and t.curve is c, "signs", f"{t} for {dx} {dy}")
        ctx.check("empty", t.is_empty == (t.amtin == 0 or t.amtout == 0) and (t.amtin == 0) == (t.amtout == 0), "half-empty", f"{t}")
        got = {t.tknin: t.amtin, t.tknout: t.amtout}
        ctx.check("empty", not t.is_empty or small or (abs(dx) < 1e-8 and abs(dy) < 1e-8), f"{what}:dropped", f"{t} for {dx} {dy} of {c}")
        for k, a in ((c.tknx, dx), (c.tkny, dy)):
            if not t.is_empty: ctx.check("complete", got[k] == a, f"{what}:amount", f"{k}: {got} expected {dx} {dy}")
            net[k] = net.get(k, 0) + got[k]
        if t.is_empty: continue
        n += 1
        ctx.close("price", t.price_outperin, -t.amtout / t.amtin, "outperin", 1e-14, 0, ""); ctx.close("price", t.price_inperout, -t.amtin / t.amtout, "inperout", 1e-14, 0, "")
        ctx.check("price", t.p == t.price_outperin and t.pr == t.price_inperout and t.prices == t.pp == (t.p, t.pr), "aliases", "")
        if abs(dx) > 1e-6 * c.x:
            # average price lies between the marginal prices before and after
            ref = ref_of(c); p0 = ref.p; p1 = ref.k / (ref.x + d(dx)) ** 2
            q = d(t.p) if t.tknin == c.tknx else 1 / d(t.p)
            w = D("2e-3") if what == "convex" else D("1e-6")
            ctx.check("price", min(p0, p1) * (1 - w) <= q <= max(p0, p1) * (1 + w), f"{what}:price", f"{t}: price {q} outside {p0} .. {p1}")
    # formats
    ds = r.trade_instructions(OPT.TIF_DICTS)
    ctx.check("formats", [dict(cid=t.cid, tknin=t.tknin, amtin=t.amtin, tknout=t.tknout, amtout=t.amtout) for t in tis] == ds == TI.to_dicts(tis), "dicts", f"{ds}")
    ctx.check("formats", r.trade_instructions(OPT.TIF_OBJECTS) == tis, "objects", "")
    dfs = {f: r.trade_instructions(f) for f in (OPT.TIF_DFRAW, OPT.TIF_DFP, OPT.TIF_DFAGGR, OPT.TIF_DF)}
    if not tis:
        ctx.check("formats", all(isinstance(x, pd.DataFrame) and len(x) == 0 for x in dfs.values()), "empty", "")
        return 0
    toks = {k for t in tis for k in (t.tknin, t.tknout)}
    raw, prt, agg = dfs["dfraw"], dfs["dfp"], dfs["dfaggr"]
    ctx.check("formats", raw.equals(dfs[OPT.TIF_DF]) and list(raw.index) == list(prt.index) == [t.cid for t in tis] and set(raw.columns) == set(prt.columns) == {"pair", "pairp", "tknin", "tknout"} | toks, "df:shape", f"{raw}")
    for i, t in enumerate(tis):
        row, rp, ra = raw.iloc[i], prt.iloc[i], agg.iloc[i]
        ctx.check("formats", (row["pair"], row["pairp"], row["tknin"], row["tknout"]) == (t.curve.pair, t.curve.pairp, t.tknin, t.tknout), "df:names", f"{row}")
        for k in toks:
            a = {t.tknin: t.amtin, t.tknout: t.amtout}.get(k)
            if a is None: ctx.check("formats", pd.isna(row[k]) and rp[k] == "" and pd.isna(ra[k]), "df:holes", f"{row}")
            else: ctx.check("formats", row[k] == a == rp[k] == ra[k], "df:amount", f"{row}")
    ctx.check("aggregate", list(agg.index) == [t.cid for t in tis] + ["AMMIn", "AMMOut", "TOTAL NET"] and set(agg.columns) == toks, "rows", f"{agg}")
    for k in toks:
        ins = sum(t.amtin for t in tis if t.tknin == k); outs = sum(t.amtout for t in tis if t.tknout == k)
        e = 1e-12 * (ins - outs)
        for nm, v in (("AMMIn", ins), ("AMMOut", outs), ("TOTAL NET", ins + outs)):
            ctx.close("aggregate", float(agg.loc[nm, k]), v, nm, 1e-12, e, k)
        ctx.close("aggregate", float(agg.loc["TOTAL NET", k]), net[k], "net", 1e-9, 1e-9 * (ins - outs) + 1e-300, k)
    try:
        r.trade_instructions("dfnope"); ctx.check("refused", False, "format", "")
    except ValueError: ctx.check("refused", True, "", "")
    return n


def results(ctx):
    rng = ctx.rng
    kinds = rng.choice([["unlev"], ["unlev", "wide"], ["wide"], ["narrow"], ["wide", "narrow", "unlev"], ["carbon", "wide"], ["narrow"]])
    spread = rng.choice([0, 0, 1e-9, 0.001, 0.02, 0.2])
    mag = rng.choice([1e-2, 1, 1e3, 1e6, 1e10])
    nt = rng.choice([2, 3, 4])
    toks, true, cs = market(rng, nt, spread, kinds, scale=(0.1, 10), size=(mag, mag * 100))
    ctx.log(kinds, spread, mag, *[repr(c) for c in cs])
    before = state(cs)
    o = OPT(CPCContainer(cs))
    T = rng.choice(toks)
    n = 0
    r = quiet(o.margp_optimizer, T, params=dict(pstart={t: true[t] / true[T] for t in toks if t != T}))
    if not r.is_error: n += judge(ctx, cs, r.dxvalues, r.dyvalues, r, "margp", 1e-10); ctx.cover("margp", "+".join(kinds), mag, n > 0)
    else: ctx.cover("error")
    if nt == 2:
        r = quiet(o.simple_optimizer, targettkn=T)
        if not r.is_error:
            m = judge(ctx, r.curves, r.dxvalues, r.dyvalues, r, "simple", 1e-10); n += m
            ctx.cover("simple", "+".join(kinds), mag, m > 0)
    ctx.check("complete", state(cs) == before, "changed", "")
    ctx.run((before, T), n > 0)


def convex(ctx):
    rng = ctx.rng
    toks, true, cs = market(rng, rng.choice([2, 3]), rng.choice([0, 0.001, 0.02, 0.1]), ["unlev"], scale=(0.5, 2), size=(500, 2000))
    ctx.log(*[repr(c) for c in cs])
    o = OPT(CPCContainer(cs))
    r = quiet(o.nofees_optimizer, toks[0], solver="ECOS")
    n = 0
    if not r.is_error:
        n = judge(ctx, cs, r.dxvalues, r.dyvalues, r, "convex", 1e-6)
        ctx.cover("convex", len(toks), n > 0)
    ctx.run((state(cs),), n > 0)


def direct(ctx):
    rng = ctx.rng
    c, ref, info = rand_curve(rng, cid=rng.choice(["c1", 7, "0xab"]))
    a, b = rng.sample([c.tknx, c.tkny], 2)
    v, w = sig(rng, 1e-6, 1e12), -sig(rng, 1e-6, 1e12)
    who = rng.choice([c, c.cid])
    t = TI.new(who, a, v, b, w); t2 = TI.new(who, b, w, a, v)
    ctx.check("direct", (t.cid, t.tknin, t.amtin, t.tknout, t.amtout) == (str(c.cid), a, v, b, w) and t == t2 and not t.is_empty and t.curve is (c if who is c else None), "new", f"{t} {t2}")
    t3 = TI(cid=c.cid, tknin=a, amtin=v, tknout=b, amtout=w)
    ctx.check("direct", t3 == t and t3.asdict() == dict(cid=str(c.cid), tknin=a, amtin=v, tknout=b, amtout=w), "constructor", "")
    ctx.close("price", t.p * t.pr, 1, "inverse", 1e-14, 0, ""); ctx.close("price", t.p, -w / v, "p", 1e-14, 0, "")
    df = TI.to_format([t3], OPT.TIF_DFRAW)
    ctx.check("formats", df.loc[str(c.cid), a] == v and df.loc[str(c.cid), b] == w and df.loc[str(c.cid), "pair"] == "", "no-curve", "")
    z = TI.new(who, a, rng.choice([0, 1e-9, -1e-9]), b, rng.choice([0, 0.0]))
    ctx.check("empty", z.is_empty and z.amtin == z.amtout == 0, "zero", f"{z}")
    for bad in (lambda: TI.new(c.cid, a, v, b, -w), lambda: TI.new(c.cid, a, -v, b, w), lambda: TI(c.cid, a, -v, b, -w), lambda: TI(c.cid, a, v, b, 0), lambda: TI(c.cid, a, 0, b, w),
                lambda: TI.new(c.cid, a, v, a, w), lambda: TI("other", a, v, b, w, curve=c),
                lambda: TI.new(c, a, 0, b, -max(1e-7, (c.x if b == c.tknx else c.y) * 0.1)), lambda: TI.new(c, a, max(1e-7, (c.x if a == c.tknx else c.y) * 0.1), b, 0), lambda: TI.new(c, a, ref_of(c).x.__float__() * .1 + c.y, b, c.y + float(ref_of(c).x))):
        try:
            bad(); ctx.check("refused", False, "accepted", "inconsistent instruction accepted")
        except (ValueError, AssertionError): ctx.check("refused", True, "", "")
    ctx.cover("direct", info["how"])
    ctx.run(("direct", v, w, a), True)


CASES = [("results", results, 300, 8000), ("convex", convex, 30, 400), ("direct", direct, 200, 4000)]
