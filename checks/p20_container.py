"""containers of curves: membership, selection, serialisation, price estimates, statistics"""
from vlib.cpclib import *
import itertools, math, os, tempfile, shutil, json
import numpy as np, pandas as pd
from carbon.tools import tokenscale as TS

PID = "P20"
RULE = ("containers of 0 to 14 random curves of every kind over few tokens (many curves per pair and in both directions, several curves equal but for their id), "
        "filled in random ways (list, generator, add, +=, nested, wrapped in inverters, copies, selections of other containers) with queries in between; "
        "every answer compared with a plain list of the curves; distinct by content; non-trivial with at least two curves")
ASSUME = ["curve ids are unique", "price estimates to 1e-12, statistics to 1e-9 relative", "curves within 1e-6 of a bound do not count for price estimates, as documented for at_boundary"]
REQUIRED = ["members", "select", "filter", "roundtrip", "price", "estimate", "tables", "tokenscale", "stats", "invisible"]

TK = ["ETH", "USDC", "WBTC", "LINK", "DAI", "WETH-6Cc2", "USDC-eB48", "BNT", "aave", "LP-A-1", "LP-B-1"]
K = lambda c: (c.cid, c.k, c.x, c.x_act, c.y_act, c.pair, c.fee, c.descr, c.constr, tuple(sorted((str(a), str(b)) for a, b in c.params.items())))


def keys(it): return [K(c) for c in it]


def ids(it): return [c.cid for c in it]


def build(rng, n, toks, ctx):
    out = []
    mode = rng.choice(["str", "int", "none", "mix"])
    for i in range(n):
        cid = {"str": f"c{i}", "int": 100 + i, "none": None, "mix": rng.choice([f"m{i}", 1000 + i, None])}[mode]
        p = sig(rng, 0.01, 100)
        if out and rng.random() < 0.15:
            o = rng.choice(out)
            c = CPC.from_kx(k=o.k, x=o.x, x_act=o.x_act, y_act=o.y_act, pair=o.pair, cid=cid, fee=o.fee, descr=o.descr)
        else:
            c, r, _ = rand_curve(rng, pr=pair(rng, toks), cid="tmp", p=p)
            miss = {k: None for k in ("fee", "descr") if rng.random() < 0.15}        # optional fields not given
            c = CPC.from_dict(dict(c.asdict(), cid=cid, **miss))
        out.append(c)
    return out


def split_list(rng, ts, l=None):
    l = sorted(l if l is not None else ts)
    return rng.choice([lambda: set(l), lambda: list(l), lambda: tuple(l), lambda: ",".join(l), lambda: ", ".join(l), lambda: " , ".join(l)])()


NUM = ["USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC"]
def pretty(t): return t[:t.index("-")] if "-" in t else t


def primary(p):
    """the direction quoted in the numeraire that comes first in the documented list, else the alphabetical one"""
    b, q = p.split("/")
    rb, rq = (NUM.index(pretty(t)) if pretty(t) in NUM else 99 for t in (b, q))
    return p if (rq, b) < (rb, q) else rev(p)


def rev(p): return "/".join(p.split("/")[::-1])


def case(ctx):
    rng = ctx.rng
    toks = rng.sample(TK, rng.choice([2, 3, 4, 6]))
    curves = build(rng, rng.choice([0, 1, 2, 3, 5, 8, 14, 14 if rng.random() < 0.7 else 40]), toks, ctx)
    raw = list(curves)
    scale = rng.choice([None, TS.TokenScaleData, TS.TokenScale.from_tokenscales(ETH=7, LINK=3.5)])
    how = rng.choice(["list", "gen", "add", "iadd", "nest", "inv", "mixed", "tuple", "container"])
    ctx.log(how, *[repr(c) for c in curves])
    w = lambda c: CPCInverter(c) if rng.random() < 0.5 else c
    if how == "list": CC = CPCContainer(list(curves), tokenscale=scale)
    elif how == "tuple": CC = CPCContainer(tuple(curves), tokenscale=scale)
    elif how == "gen": CC = CPCContainer((c for c in curves), tokenscale=scale)
    elif how == "inv": CC = CPCContainer([w(c) for c in curves], tokenscale=scale)
    elif how == "container": CC = CPCContainer(CPCContainer(curves), tokenscale=scale)
    else:
        CC = CPCContainer(tokenscale=scale)
        if how == "add":
            for c in curves: ctx.check("members", CC.add(w(c)) is CC, "add:self", "")
        elif how == "iadd":
            for c in curves: CC += w(c)
        elif how == "nest":
            m = len(curves) // 2
            CC += [curves[:m], (w(c) for c in curves[m:])]
        else:
            m = len(curves) // 3
            CC = CPCContainer(curves[:m], tokenscale=scale); CC += curves[m:2 * m]; CC.add(c for c in curves[2 * m:])
    # ids assigned
    ctx.check("members", len(set(ids(curves))) == len(curves) and None not in ids(curves), "ids", f"{ids(curves)}")
    if how in ("list", "gen", "inv", "tuple", "add", "iadd", "nest"):
        ctx.check("members", all(c.cid == i or isinstance(c.cid, str) or c.cid >= 100 for i, c in enumerate(curves)), "default-ids", f"{ids(curves)}")
    before = keys(curves)
    queries(ctx, CC, curves, scale)
    ctx.check("invisible", keys(curves) == before and keys(CC) == before, "query-changed", "")
    # grow a copy: original unaffected
    cp = CC.copy()
    ctx.check("invisible", keys(cp) == before and cp is not CC, "copy", "")
    extra, _, _ = rand_curve(rng, pr=pair(rng, toks), cid="extra", p=sig(rng, 0.01, 100))
    cp += extra
    ctx.check("invisible", keys(CC) == before and keys(cp) == before + [K(extra)] and extra not in CC and extra in cp, "copy:shared", "")
    queries(ctx, cp, curves + [extra], scale, light=True)
    bad = rng.choice([5, "x", None, {"a": 1}])
    try:
        cp.add(bad); ctx.check("members", False, "add:foreign", f"{bad!r}")
    except (AssertionError, TypeError, RecursionError):
        ctx.check("members", keys(cp) == before + [K(extra)], "add:foreign", f"{bad!r}")
    ctx.cover(how, min(len(curves), 5))
    ctx.run((how, repr(before)), len(curves) > 1)
    ctx.sample([how, ids(curves)])


def queries(ctx, CC, L, scale, light=False):
    rng = ctx.rng
    ctx.check("members", len(CC) == len(L) and all(a is b for a, b in zip(CC, L)), "content", f"{ids(CC)} vs {ids(L)}")
    ctx.check("members", all(CC[i] is L[i] and L[i] in CC and CC.curveix(L[i]) == i and CC.bycid(L[i].cid) is L[i] for i in range(len(L))), "lookup", "")
    ctx.check("members", CC.bycid("nope") is None and CC.cids() == tuple(ids(L)) and CC.cids(asset=True) == set(ids(L)), "cids", "")
    f, _, _ = rand_curve(rng, cid="foreign")
    ctx.check("members", f not in CC and CC.curveix(f) is None, "foreign", "")
    if L:
        c = rng.choice(L)
        twin = CPC.from_kx(k=c.k * 2, x=c.x, pair=c.pair, cid=c.cid)
        ctx.check("members", twin not in CC and CC.curveix(twin) is None, "foreign:same-id", f"{twin}")
        try: c.setcid("other"); ctx.check("members", False, "setcid:again", f"{c}")
        except AssertionError: ctx.check("members", True, "", "")
    # token scales
    t1 = scale or TS.TokenScale1Data
    for t in TK[:4] + ["ZZ"]:
        ctx.check("tokenscale", CC.scale(t) == t1.scale(t) and (scale is not None or CC.scale(t) == 1), "scale", t)
    if scale is not None: ctx.check("tokenscale", CC.scale("ZZ") == 0.01 and CC.scale("LINK") == {True: 10, False: 3.5}[scale is TS.TokenScaleData], "scale:value", "")
    ctx.check("tokenscale", all((c.scalex, c.scaley) == (t1.scale(c.tknx), t1.scale(c.tkny)) for c in CC), "scale:curves", f"{[(c.scalex, c.scaley) for c in CC]}")
    # tokens and pairs
    X, Y = [c.pair.split("/")[0] for c in L], [c.pair.split("/")[1] for c in L]
    ctx.check("members", (CC.tknxs(), CC.tknys(), CC.tknxl(), CC.tknyl(), CC.tkns(), CC.tokens()) == (set(X), set(Y), X, Y, set(X + Y), set(X + Y)), "tokens", "")
    ctx.check("members", CC.tokens_s() == ",".join(sorted(set(X + Y))), "tokens_s", "")
    sub = rng.sample(L, rng.randint(0, len(L)))
    ctx.check("members", (CC.tknxs(sub), CC.tknyl(sub), CC.tkns(sub)) == ({c.tknx for c in sub}, [c.tkny for c in sub], {t for c in sub for t in c.pair.split("/")}), "tokens:sub", "")
    prim = {primary(c.pair) for c in L}
    ctx.check("members", prim == {c.pairo.primary for c in L} and all((c.tknbp, c.tknqp) == tuple(pretty(t) for t in c.pair.split("/")) and c.pairp == "/".join(map(pretty, c.pair.split("/"))) for c in L),
              "primary", f"{prim} {[c.pairp for c in L]}")
    ctx.check("members", CC.pairs() == prim and CC.pairs(standardize=False) == {c.pair for c in L} and all((p in prim) != (rev(p) in prim) for p in prim), "pairs", f"{CC.pairs()}")
    if light: return
    select(ctx, CC, L, X, Y)
    filt(ctx, CC, prim)
    prices(ctx, CC, L)
    roundtrip(ctx, CC, L, scale)
    tables(ctx, CC, L)
    if L: ctx.check("members", all(str(c.cid)[-10:] in CC.format() for c in L) and len(CC.format().splitlines()) > len(L) and len(CC.format(heading=False).splitlines()) == len(L), "format", "")


def select(ctx, CC, L, X, Y):
    rng = ctx.rng
    def same(fn, exp, what, *a, **k):
        r = fn(*a, **k)
        ctx.check("select", isinstance(r, CPCContainer) and ids(r) == ids(exp) and all(x is y for x, y in zip(r, exp)), what, f"{what}{a}{k}: {ids(r)} expected {ids(exp)}")
        ctx.check("tokenscale", r.tokenscale is CC.tokenscale, "scale:select", what)
        t = fn(*a, **k, ascc=False)
        ctx.check("select", isinstance(t, tuple) and ids(t) == ids(exp), what + ":tuple", "")
        g = fn(*a, **k, asgenerator=True)
        ctx.check("select", not isinstance(g, (tuple, list, CPCContainer)) and ids(g) == ids(exp), what + ":generator", "")
    inc = rng.choice([None, [], rng.sample(ids(L), rng.randint(0, len(L)))])
    exc = rng.choice([None, [], set(rng.sample(ids(L), rng.randint(0, len(L)))), ["nope"]])
    by = {c.cid: c for c in L}
    exp = [c for c in (L if inc is None else [by[i] for i in inc]) if not exc or c.cid not in exc]
    same(CC.bycids, exp, "bycids", inc, exclude=exc)
    try:
        r = CC.bycids(["nope"]); ctx.check("select", False, "bycids:unknown", "")
    except KeyError: ctx.check("select", True, "", "")
    for p in {rng.choice([c.pair for c in L]) if L else "A/B", "/".join(rng.sample(TK, 2)), "NO/PE"}:
        same(CC.bypair, [c for c in L if c.pair == p], "bypair:directed", p, directed=True)
        for fn in (CC.bypair, CC.bp):
            r = fn(p)
            e = [c for c in L if c.pair in (p, rev(p))]
            ctx.check("select", len(r) == len(e) and set(ids(r)) == set(ids(e)), "bypair", f"{p}: {ids(r)}")
    ps = set(rng.sample(sorted({c.pair for c in L}), rng.randint(0, len({c.pair for c in L}))))
    if rng.random() < 0.3: ps.add("NO/PE")
    arg = split_list(rng, ps) if ps else set()
    same(CC.bypairs, [c for c in L if c.pair in ps], "bypairs:directed", arg, directed=True)
    same(CC.bypairs, [c for c in L if c.pair in ps or rev(c.pair) in ps], "bypairs", arg)
    same(CC.bypairs, L, "bypairs:all")
    for t in set(rng.sample(TK, 2) + X[:1] + Y[:1]):
        for fn in (CC.bytknx, CC.bytknb): same(fn, [c for c, x in zip(L, X) if x == t], "bytknx", t)
        for fn in (CC.bytkny, CC.bytknq): same(fn, [c for c, y in zip(L, Y) if y == t], "bytkny", t)
    ts = set(rng.sample(TK, rng.randint(1, 4)))
    same(CC.bytknxs, [c for c, x in zip(L, X) if x in ts], "bytknxs", split_list(rng, ts))
    same(CC.bytknys, [c for c, y in zip(L, Y) if y in ts], "bytknys", split_list(rng, ts))
    ctx.check("select", ids(CC.bytknxs()) == ids(L) == ids(CC.bytknys()), "bytkns:all", "")


def filt(ctx, CC, prim):
    rng = ctx.rng
    C = {"bothin": lambda b, q, s: b in s and q in s, "onein": lambda b, q, s: b in s or q in s, "contains": lambda b, q, s: b in s or q in s,
         "notin": lambda b, q, s: b not in s and q not in s, "tknbin": lambda b, q, s: b in s, "tknbnotin": lambda b, q, s: b not in s,
         "tknqin": lambda b, q, s: q in s, "tknqnotin": lambda b, q, s: q not in s}
    for _ in range(4):
        P = prim if rng.random() < 0.6 else {"/".join(rng.sample(TK, 2)) for _ in range(6)}
        kw, fs = {}, []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5])):
            n = rng.choice(list(C))
            s = set(rng.sample(TK, rng.randint(1, 5)))
            key = n
            while key in kw: key = f"{n}_{rng.randint(1, 99)}"
            kw[key] = split_list(rng, s); fs.append((C[n], s))
        aa = rng.choice([CC.FP_ANY, CC.FP_ALL])
        if not fs: exp = set(P)
        elif aa == CC.FP_ALL: exp = {p for p in P if all(f(*p.split("/"), s) for f, s in fs)}
        else: exp = {p for p in P if any(f(*p.split("/"), s) for f, s in fs)}
        r = CC.filter_pairs(None if P is prim and rng.random() < 0.5 else P, anyall=aa, **kw)
        ctx.check("filter", set(r) == exp, "filter_pairs", f"{kw} {aa}: {r} expected {exp}")
        ctx.check("filter", set(CC.fp(P, anyall=aa, **kw)) == exp, "fp", "")
        s = set(rng.sample(TK, rng.randint(1, 5)))
        ctx.check("filter", set(CC.fpb(split_list(rng, s), P)) == {p for p in P if C["bothin"](*p.split("/"), s)}, "fpb", "")
        ctx.check("filter", set(CC.fpo(split_list(rng, s), P)) == {p for p in P if C["onein"](*p.split("/"), s)}, "fpo", "")
    try:
        CC.filter_pairs(prim, whatever="ETH"); ctx.check("filter", False, "unknown-condition", "")
    except ValueError: ctx.check("filter", True, "", "")
    try:
        CC.filter_pairs(prim, onein="ETH", anyall="most"); ctx.check("filter", False, "unknown-anyall", "")
    except ValueError: ctx.check("filter", True, "", "")


def prices(ctx, CC, L):
    rng = ctx.rng
    for p in {c.pair for c in L} | {"/".join(rng.sample(TK, 2))}:
        for b, q in (p.split("/"), p.split("/")[::-1]):
            cs = [c for c in L if c.pair in (f"{b}/{q}", f"{q}/{b}")]
            g = CC.price(b, q)
            if not cs: ctx.check("price", g is None, "price:none", f"{g}")
            else:
                isprim = {c.pair: c.pairo.isprimary for c in cs}
                pp = math.fsum(c.pp for c in cs) / len(cs)
                direct = isprim[f"{b}/{q}"] if f"{b}/{q}" in isprim else not isprim[f"{q}/{b}"]
                ctx.close("price", g, pp if direct else 1 / pp, "price", 1e-12, 0, f"price {b}/{q}")
            # estimate
            ok = [(float(c.p if c.tknb == b else 1 / c.p), math.sqrt(c.k), c) for c in cs if not c.at_boundary]
            kw = rng.choice([dict(tknb=b, tknq=q), dict(pair=f"{b}/{q}")])
            if not ok:
                ctx.check("estimate", CC.price_estimate(**kw, raiseonerror=False) is None, "estimate:none", "")
                try:
                    CC.price_estimate(**kw); ctx.check("estimate", False, "estimate:silent", "")
                except ValueError: ctx.check("estimate", True, "", "")
            else:
                e = math.fsum(a * k for a, k, _ in ok) / math.fsum(k for _, k, _ in ok)
                ctx.close("estimate", CC.price_estimate(**kw), e, "estimate", 1e-12, 0, f"estimate {b}/{q}")
                ps, ws = CC.price_estimate(**kw, result=CC.PE_DATA)
                ctx.check("estimate", sorted((float("%.10g" % a), float("%.10g" % w)) for a, w in zip(ps, ws)) == sorted((float("%.10g" % a), float("%.10g" % k)) for a, k, _ in ok), "estimate:data", "")
                cu = CC.price_estimate(**kw, result=CC.PE_CURVES)
                ctx.check("estimate", sorted(map(str, (r[0].cid for r in cu))) == sorted(str(c.cid) for *_, c in ok), "estimate:curves", "")
            ctx.check("estimate", CC.price_estimate(**kw, result=CC.PE_PAIR) == f"{b}/{q}", "estimate:pair", "")
    ctx.check("estimate", CC.price_estimate(tknb="ETH", tknq="ETH") == 1, "estimate:self", "")
    bs, qs = rng.sample(TK, rng.randint(1, 3)), rng.sample(TK, rng.randint(1, 3))
    E = [[CC.price_estimate(tknb=b, tknq=q, raiseonerror=False) for b in bs] for q in qs]
    m = CC.price_estimates(tknbs=bs, tknqs=qs, raiseonerror=False, unwrapsingle=False)
    ctx.check("estimate", [list(r) for r in m] == E, "estimates", f"{bs} {qs}: {m} expected {E}")
    m = CC.price_estimates(tknbs=bs, tknqs=qs, raiseonerror=False)
    ctx.check("estimate", (list(m) if len(qs) == 1 else [list(r) for r in m]) == (E[0] if len(qs) == 1 else E), "estimates:unwrap", "")
    try:
        CC.price_estimates(tknbs=bs, tknqs=qs); ok = True
    except ValueError: ok = False
    ctx.check("estimate", ok == all(e is not None for r in E for e in r), "estimates:missing", f"{E}")
    for kw in (dict(), dict(tknb="ETH"), dict(tknq="ETH"), dict(tknb="ETH", pair="ETH/DAI")):
        try:
            CC.price_estimate(**kw); ctx.check("estimate", False, "estimate:args", f"{kw}")
        except AssertionError: ctx.check("estimate", True, "", "")


def same_curves(ctx, a, b, what, rel=0):
    ctx.check("roundtrip", len(a) == len(b), what + ":len", "")
    for x, y in zip(a, b):
        ctx.check("roundtrip", str(x.cid) == str(y.cid) and (x.pair, x.fee, x.descr, x.constr) == (y.pair, y.fee, y.descr, y.constr), what + ":meta", f"{x} vs {y}")
        for f in ("k", "x", "y", "x_act", "y_act", "p"):
            ctx.close("roundtrip", getattr(x, f), getattr(y, f), f"{what}:{f}", rel, 0, f"{f} of {x.cid} after {what}")
        ctx.check("roundtrip", x.params == y.params, what + ":params", f"{x.params} vs {y.params}")


def roundtrip(ctx, CC, L, scale):
    rng = ctx.rng
    # mark some traded curves too
    if L and rng.random() < 0.4:
        c = rng.choice(L)
        try: L2 = [x if x is not c else c.execute(dx=c.x_act * -0.25) for x in L]
        except ValueError: L2 = L
        if rng.random() < 0.5: L2 = [CPC.from_dict(c.asdict()) for c in L2]
        CC = CPCContainer(L2, tokenscale=scale); L = L2
    ds = CC.asdicts()
    back = CPCContainer.from_dicts(ds, tokenscale=scale)
    same_curves(ctx, back, L, "dicts")
    ctx.check("tokenscale", back.tokenscale is CC.tokenscale, "scale:from_dicts", "")
    js = json.loads(json.dumps(ds, default=float))
    same_curves(ctx, CPCContainer.from_dicts(js), L, "json")
    if not L: return
    df = CC.asdf()
    ctx.check("roundtrip", list(df.index) == ids(L) and "k" in df.columns, "df:index", "")
    same_curves(ctx, CPCContainer.from_df(df), L, "df")
    same_curves(ctx, CPCContainer.from_df(df.reset_index(), tokenscale=scale), L, "df:plain")
    if rng.random() < 0.3:
        tmp = tempfile.mkdtemp(prefix="verif_p20_")
        try:
            fn = os.path.join(tmp, "c.csv")
            df.to_csv(fn)
            same_curves(ctx, CPCContainer.from_df(pd.read_csv(fn)), L, "csv", 1e-9)
        finally: shutil.rmtree(tmp)


def tables(ctx, CC, L):
    rng = ctx.rng
    tt = CC.tokentable()
    ts = {t for c in L for t in c.pair.split("/")}
    ctx.check("tables", set(tt) == ts and all(tt[t].x == [i for i, c in enumerate(L) if c.tknx == t] and tt[t].y == [i for i, c in enumerate(L) if c.tkny == t] and len(tt[t]) == sum(t in c.pair.split("/") for c in L) for t in ts), "tokentable", f"{tt}")
    sub = rng.sample(L, rng.randint(0, len(L)))
    ts2 = {t for c in sub for t in c.pair.split("/")}
    t2 = CC.tokentable(sub)
    ctx.check("tables", set(t2) == ts2 and all(t2[t].x == [i for i, c in enumerate(sub) if c.tknx == t] and t2[t].y == [i for i, c in enumerate(sub) if c.tkny == t] for t in ts2), "tokentable:sub", "")
    if not L: return
    byp = {}
    for c in L: byp.setdefault(c.pair, []).append(c)
    p = rng.choice(list(byp)); cs = byp[p]
    sx, sy = CC.xystats(cs)
    for s, v in ((sx, [c.x for c in cs]), (sy, [c.y for c in cs])):
        mu = math.fsum(v) / len(v)
        for g, e in ((s.mean, mu), (s.minv, min(v)), (s.maxv, max(v)), (s.sdev, math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v)))):
            ctx.close("stats", g, e, "xystats", 1e-9, 1e-9 * mu, "")
    try:
        CC.xystats(); ctx.check("stats", len({c.tknx for c in L}) == len({c.tkny for c in L}) == 1, "xystats:mixed", "")
    except AssertionError: ctx.check("stats", len(byp) > 1, "xystats:refused", "")
    pairs = None if rng.random() < 0.6 else set(rng.sample(list(byp), rng.randint(1, len(byp))))
    S = L if pairs is None else [c for c in L if c.pair in pairs or rev(c.pair) in pairs]
    PA = lambda t, **k: CC.pairs_analysis(target=t, pairs=pairs, **k)
    lst = PA(CC.AT_LIST)
    exp = tuple((c.tknx, c.tkny, c.tknb, c.tknq, c.pair, c.pairo.primary, c.pairo.isprimary, c.p, c.pp, c.x, c.x_act, c.y, c.y_act, c.cid) for c in S)
    ctx.check("tables", tuple(lst) == exp, "list", f"{lst} {exp}")
    df = PA(CC.AT_LISTDF)
    ctx.check("tables", [tuple(r) for r in df.itertuples(index=False)] == list(exp), "listdf", "")
    v = PA(CC.AT_VOLUMES)
    e = {}
    for c in S:
        e[(c.tknx, c.cid)] = (c.x, c.x_act); e[(c.tkny, c.cid)] = (c.y, c.y_act)
    if len({type(c.cid) for c in S}) == 1 and len(e):
        ctx.check("tables", {i: (float(r["amtv"]), float(r["amt"])) for i, r in v.iterrows()} == e, "volumes", f"{v} {e}")
    cnt = {}
    for c in S: cnt[c.pair] = cnt.get(c.pair, 0) + 1
    for t in (CC.AT_PIVOTBQ, CC.AT_PIVOTXY):
        m = PA(t)
        ctx.check("tables", {f"{b}/{q}": int(m.loc[b, q]) for b in m.index for q in m.columns if m.loc[b, q]} == cnt, t, f"{m} {cnt}")
    for t in (CC.AT_PIVOTBQS, CC.AT_PIVOTXYS):
        m = PA(t)
        e = {x: cnt.get(x, 0) + cnt.get(rev(x), 0) for q in cnt for x in (q, rev(q))}
        ctx.check("tables", {f"{b}/{q}": int(m.loc[b, q]) for b in m.index for q in m.columns if m.loc[b, q]} == e, t, f"{m} {e}")
    bp = {}
    for c in S: bp.setdefault(c.pair, []).append(c.p)
    for t, f in ((CC.AT_PRICES, lambda x: math.fsum(x) / len(x)), (CC.AT_MAX, max), (CC.AT_MIN, min)):
        m = PA(t)
        g = {f"{b}/{q}": float(m.loc[b, q]) for b in m.index for q in m.columns if m.loc[b, q]}
        ctx.check("tables", set(g) == set(bp), t, f"{g}")
        for k in bp: ctx.close("tables", g[k], f(bp[k]), t, 1e-12, 0, k)
    m = PA(CC.AT_PRICELIST)
    g = {(i[0] + "/" + i[1], str(i[2])): (float(r["p"]), float(r["pp"]), r["primary"], r["pair"]) for i, r in m.iterrows()}
    ctx.check("tables", set(g) == {(c.pair, str(c.cid)) for c in S} and all(close(g[(c.pair, str(c.cid))][0], c.p, 1e-12) and close(g[(c.pair, str(c.cid))][1], c.pp, 1e-12)
              and g[(c.pair, str(c.cid))][2:] == (c.pairo.primary, c.pair) for c in S), "pricelist", f"{m}")
    m = PA(CC.AT_PLAGG)
    ctx.check("tables", {"/".join(i) for i in m.index} == set(bp), "plaggr:pairs", "")
    for k in bp:
        v = [c.pp for c in S if c.pair == k]; r = m.loc[tuple(k.split("/"))]
        mu = math.fsum(v) / len(v); sd = math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v))
        for f, e in (("mean", mu), ("count", len(v)), ("sdpc100", sd / mu * 100), ("min", min(v)), ("max", max(v)), ("rangepc100", (max(v) - min(v)) / max(v) * 100),
                     ("herfindahl", math.fsum(x * x for x in v) / math.fsum(v) ** 2)):
            ctx.close("tables", r[("pp", f)], e, "plaggr:" + f, 1e-9, 1e-9, k)
        ctx.check("tables", r[("primary", "first")] == primary(k), "plaggr:primary", "")
    sp = PA(CC.AT_SDPC); sd_ = PA(CC.AT_SD)
    for k in bp:
        v = bp[k]; b, q = k.split("/"); mu = math.fsum(v) / len(v); sd = math.sqrt(math.fsum((x - mu) ** 2 for x in v) / len(v))
        ctx.close("tables", sp.loc[b, q], sd / mu, "sdpc", 1e-7, 1e-9, k)
        g = float(sd_.loc[b, q]) if b in sd_.index and q in sd_.columns else 0.0
        e = sd * math.sqrt(len(v) / (len(v) - 1)) if len(v) > 1 else 0
        ctx.check("tables", close(g, e, 1e-7, 1e-9 * mu) or close(g, sd, 1e-7, 1e-9 * mu), "std", f"{k} {g} {e}")
    ctx.cover("pairs", min(len(byp), 4), "multi" if max(map(len, byp.values())) > 1 else "single")


def volumes(ctx):
    """volumes in the reference token of a market in which every token trades against it"""
    rng = ctx.rng
    E = M.T.ETH
    toks = rng.sample([t for t in TK if t != E], rng.randint(1, 4))
    L = []
    for i in range(rng.choice([1, 2, 4, 8, 15])):
        t = rng.choice(toks); pr = f"{t}/{E}" if rng.random() < 0.5 else f"{E}/{t}"
        c, _, _ = rand_curve(rng, pr=pr, cid="tmp", p=sig(rng, 0.01, 100))
        L.append(CPC.from_dict(dict(c.asdict(), cid=f"c{i}")))
    CC = CPCContainer(L)
    ctx.log(*[repr(c) for c in L])
    m = CC.pairs_analysis(target=CC.AT_VOLSAGG)
    v = CC.pairs_analysis(target=CC.AT_VOLUMES)
    T = {}
    for c in L:
        for t, a, b in ((c.tknx, c.x, c.x_act), (c.tkny, c.y, c.y_act)):
            T.setdefault(t, []).append((a, b))
            ctx.check("tables", bool(v.loc[(t, c.cid)]["lvg"] == a / b if b else math.isinf(v.loc[(t, c.cid)]["lvg"])), "lvg", f"{v.loc[(t, c.cid)]}")
    ctx.check("tables", set(m.index) == set(T), "vaggr:tokens", "")
    for t, l in T.items():
        r = m.loc[t]
        pe = 1 if t == E else CC.price(tknb=t, tknq=E)
        ctx.close("tables", r[("price_eth", "")], pe, "vaggr:price", 1e-12, 0, t)
        ctx.check("tables", r[("n", "count")] == len(l), "vaggr:n", "")
        for j, f in ((0, "amtv"), (1, "amt")):
            x = [a[j] for a in l]; S = math.fsum(x)
            ctx.close("tables", r[(f, "sum")], S, "vaggr:sum", 1e-10, 0, t)
            ctx.close("tables", r[(f + "_eth", "")], S * pe, "vaggr:eth", 1e-10, 0, t)
            if S > 0:
                h = math.fsum(a * a for a in x) / S ** 2
                ctx.close("tables", r[(f, "herfindahl")], h, "vaggr:herfindahl", 1e-9, 0, t)
                ctx.close("tables", r[(f, "herfindahlN")], 1 / h, "vaggr:herfindahlN", 1e-9, 0, t)
        A, B = (math.fsum(a[j] for a in l) for j in (0, 1))
        if B: ctx.close("tables", r[("lvg", "")], A / B, "vaggr:lvg", 1e-9, 0, t)
    ctx.cover("volumes", len(T), min(len(L), 4))
    ctx.run(("volumes", repr(keys(L))), len(L) > 1)


CASES = [("containers", case, 160, 4000), ("volumes", volumes, 40, 600)]
