"""shared numbers, parameter sets, versions, tolerant comparison, uint256 checks and token scales"""
import math, operator
from vlib.core import close
from vlib.cpclib import quiet, sig
import carbon
from carbon.helpers.sharedvar import SharedVar as SV
from carbon.tools.params import Params
from carbon.helpers.version import require_version, VersionRequirementNotMetError
from carbon.helpers.soltest import SolTestBase
from carbon.tools.tokenscale import TokenScale, TokenScaleBase, TokenScale1, TokenScaleData, TokenScale1Data

PID = "P35"
RULE = ("histories of operations (arithmetic, bit, in-place, comparison, conversion) on shared numbers and plain numbers in every combination; histories of settings and defaults of parameter sets, copies included; pairs of version numbers; numbers around every threshold; "
        "distinct by history; non-trivial if something changes")
ASSUME = ["trailing zeros of version numbers are not specified", "operations that fail on plain numbers may fail in any way"]
REQUIRED = ["value", "alias", "inplace", "compare", "convert", "params", "defaults", "reassign", "repr", "copy", "version", "iseq", "uint", "scale"]
BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, floordiv=operator.floordiv, mod=operator.mod, pow=operator.pow, lshift=operator.lshift, rshift=operator.rshift, and_=operator.and_, or_=operator.or_, xor=operator.xor)
INP = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul, truediv=operator.itruediv, floordiv=operator.ifloordiv, mod=operator.imod, pow=operator.ipow, lshift=operator.ilshift, rshift=operator.irshift, and_=operator.iand, or_=operator.ior, xor=operator.ixor)
CMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
UN = [operator.pos, operator.neg, abs, math.floor, math.ceil, math.trunc, lambda x: round(x, 2), round, lambda x: round(x, -1)]


def number(rng): return rng.choice([rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(0, 6), rng.randint(-99, 99) / 8, sig(rng, 1e-3, 1e3), 0, 1])


def same(a, b): return type(a) is type(b) and (a == b or a != a and b != b)


def sane(n, x, y):
    if n == "pow": return abs(y) <= 6 and abs(x) <= 1e4
    if n in ("lshift", "rshift"): return abs(y) <= 20 and abs(x) < 2 ** 200
    return abs(x) < 1e60 and abs(y) < 1e60


def shared(ctx):
    rng = ctx.rng
    V = []; M = []            # variables and what they have to be; an alias is the same entry
    for _ in range(3):
        v = number(rng); V.append(SV(v)); M.append(v)
    refs = [(V[0], 0), (V[0], 0), (V[1], 1), (V[2], 2)]
    hist = []
    for step in range(40):
        x, i = rng.choice(refs); xv = M[i]
        if isinstance(xv, complex): k = V.index(x) if False else i; x.setval(1); M[i] = 1; xv = 1
        u = rng.random(); o, j = rng.choice(refs) if rng.random() < 0.5 else (None, None)
        ov = M[j] if o is not None else number(rng); o = ov if o is None else o
        if isinstance(ov, complex): continue
        n = rng.choice(list(BIN)); hist.append((n, round(u, 2), xv, ov))
        if not sane(n, xv, ov) or not sane(n, ov, xv): continue
        ctx.log(n, u, i, xv, ov, j)
        if u < 0.3:
            l, r, lv, rv = (x, o, xv, ov) if rng.random() < 0.5 or o is ov else (o, x, ov, xv)
            if rng.random() < 0.3 and o is ov: l, r, lv, rv = o, x, ov, xv
            try: w = BIN[n](lv, rv)
            except Exception: w = None
            if w is None:
                try: BIN[n](l, r)
                except Exception: pass
            else:
                g = BIN[n](l, r)
                ctx.check("value", isinstance(g, SV) and same(g.value, w), n, f"{lv} {n} {rv}: {g!r} expected {w!r}")
                ctx.check("alias", g is not x and g is not o and g.id not in (x.id, getattr(o, "id", None)), "new", "an operation returned its operand")
                if len(V) < 9: V.append(g); M.append(w); refs.append((g, len(V) - 1))
        elif u < 0.6:
            try: w = BIN[n](xv, ov)
            except Exception: w = None
            ident = x.id
            try: g = INP[n](x, o)
            except Exception as e: ctx.check("inplace", w is None, n + ":raised", f"{xv} {n}= {ov}: {e!r}"); g = x
            else:
                ctx.check("inplace", w is not None and g is x and x.id == ident, n + ":identity", f"{xv} {n}= {ov}: {g!r}")
                M[i] = w
        elif u < 0.7:
            f = rng.choice(UN); w = f(xv); g = f(x)
            ctx.check("value", isinstance(g, SV) and same(g.value, w) and g is not x, "unary", f"{xv}: {g!r} expected {w!r}")
            if len(V) < 9: V.append(g); M.append(w); refs.append((g, len(V) - 1))
        elif u < 0.78:
            try: w = divmod(xv, ov)
            except Exception: continue
            g = divmod(x, o); ctx.check("value", same(g[0].value, w[0]) and same(g[1].value, w[1]), "divmod", f"{xv} {ov}: {g}")
            if o is ov and xv: w = divmod(ov, xv); g = divmod(ov, x); ctx.check("value", same(g[0].value, w[0]) and same(g[1].value, w[1]), "rdivmod", f"{ov} {xv}: {g}")
        elif u < 0.86:
            ctx.check("alias", x.setval(ov) is x, "setval", ""); M[i] = ov
        elif u < 0.92: refs.append((x, i))
        for f in CMP:
            a, b = f(x, o), f(o, x); m = M[i], (M[j] if j is not None else ov)
            if any(isinstance(q, complex) for q in m): break
            ctx.check("compare", a is f(*m) and b is f(*m[::-1]), f.__name__, f"{m}: {a} {b}")
        for v, w in zip(V, M): ctx.check("alias", same(v.value, w), "other", f"after {hist[-1]}: a variable is {v!r}, expected {w!r}")
        x, i = rng.choice(refs); w = M[i]
        if not isinstance(w, complex):
            ctx.check("convert", int(x) == int(w) and same(float(x), float(w)) and complex(x) == complex(w) and str(x) == str(w) and bool(x) is bool(w), "convert", f"{w}: {int(x)} {float(x)} {bool(x)}")
            if isinstance(w, int): ctx.check("convert", hex(x) == hex(w) and oct(x) == oct(w) and (not 0 <= w < 5 or "abcde"[x] == "abcde"[w]), "index", f"{w}")
        ctx.check("convert", repr(x) == f"SharedVar({w!r}, oid={x.id})" or repr(x) == f"SharedVar({w}, oid={x.id})", "repr", repr(x))
    ctx.cover("shared", len(V)); ctx.run(tuple(hist), True)


NAMES = ["a", "b", "c", "plotDark", "x1", "z"]


def params(ctx):
    rng = ctx.rng
    val = lambda: rng.choice([1, "s", None, 2.5, False, (1, 2)])
    dct = lambda: {k: val() for k in rng.sample(NAMES, rng.randint(0, 4))}
    P = []          # [object, params, defaults]
    d = dct(); P.append([Params(**d), dict(d), {}])
    hist = []
    for _ in range(30):
        e = rng.choice(P); p, m, df = e; u = rng.random(); k, v = rng.choice(NAMES), val()
        hist.append((round(u, 3), k, repr(v))); ctx.log(*hist[-1])
        if u < 0.1:
            r = p.set(k, v, *rng.choice([(), (True,)])); m[k] = v; ctx.check("params", r is p, "set:chain", "")
        elif u < 0.25:
            how = rng.choice(["item", "add", "set"])
            try:
                if how == "item": p[k] = v
                elif how == "add": ctx.check("params", p.add(**{k: v}) is p, "add:chain", "")
                else: p.set(k, v, allowupdate=False)
                ctx.check("reassign", k not in m, "accepted", f"{k} was {m.get(k)}, set again with {how}"); m[k] = v
            except ValueError: ctx.check("reassign", k in m, "refused", f"{k} in {m}")
        elif u < 0.4:
            d = dct(); keep = dict(d); r = p.set_default(**d); df.update(d); ctx.check("defaults", r is p and d == keep, "chain", "")
        elif u < 0.5:
            src = rng.choice(["dict", "params", "none"])
            if src == "dict": d, ff = dct(), rng.choice([None, dct()]); q = Params.construct(d, *([] if ff is None else [ff])); P.append([q, dict(d), dict(ff or {})]); d["new"] = 1; (ff or {}).update(new=2)
            elif src == "none": ff = rng.choice([None, dct()]); q = Params.construct(rng.choice([None, {}]), defaults=ff); P.append([q, {}, dict(ff or {})])
            else:
                q = Params.construct(p); P.append([q, dict(m), dict(df)])
                if df:
                    try: Params.construct(p, defaults={"e": 1}); ctx.check("defaults", False, "both", "")
                    except ValueError: ctx.ev("defaults")
            ctx.check("copy", q is not p, "same", "")
            if len(P) > 5: P.pop(0)
        for p, m, df in P:
            ctx.check("params", p.params == m, "params", f"{p.params} expected {m}")
            for k in NAMES + ["new"]:
                w = m.get(k, df.get(k)); ctx.check("params", p[k] == w and type(p[k]) is type(w), "item", f"{k}: {p[k]} expected {w} of {m} {df}")
                if k in m or k in df: ctx.check("params", getattr(p, k) == w, "attribute", f"{k}")
                else:
                    try: getattr(p, k); ctx.check("params", False, "missing", k)
                    except (KeyError, AttributeError): ctx.ev("params")
                ctx.check("defaults", p.get_default(k) == df.get(k), "default", f"{k}: {p.get_default(k)} expected {df.get(k)}")
                if k not in df:
                    try: p.get_default(k, raiseonerror=True); ctx.check("defaults", False, "raise", k)
                    except KeyError: ctx.ev("defaults")
            if rng.random() < 0.2: ctx.check("defaults", p.defaults == df, "defaults", f"{p.defaults} expected {df}")
            q = eval(repr(p), {"Params": Params}); ctx.check("repr", q.params == m and q.defaults == df, "repr", repr(p))
    ctx.cover("params", len(P)); ctx.run(tuple(hist), True)


def versions(ctx):
    rng = ctx.rng
    for _ in range(12):
        a = [rng.choice([0, 1, 2, 3, 9, 10, 11, 100]) for _ in range(rng.randint(1, 4))]
        b = list(a[:rng.randint(1, 4)]) if rng.random() < 0.6 else [rng.randint(0, 12) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.5: b[rng.randrange(len(b))] += rng.choice([-1, 1, 0, 8])
        if rng.random() < 0.3: b += [rng.randint(0, 3) for _ in range(rng.randint(1, 2))]
        b = [max(0, x) for x in b]
        if rng.random() < 0.5: a, b = b, a
        n = max(len(a), len(b)); pa, pb = a + [0] * (n - len(a)), b + [0] * (n - len(b))
        if pa == pb and len(a) != len(b): continue
        want = pa <= pb
        t = lambda: rng.choice(["", "", "-beta2", "beta1", "-1", " ", "rc"])
        r, v = ".".join(map(str, a)) + t(), ".".join(map(str, b)) + t()
        if rng.random() < 0.2: r, v = " " + r, " " + v
        ctx.log(r, v)
        ctx.check("version", require_version(r, v, raiseonfail=False) is want, "compare", f"{v} meets {r}: expected {want}")
        try: g = require_version(r, v); ctx.check("version", want and g is True, "returns", f"{v} meets {r}: {g}")
        except VersionRequirementNotMetError: ctx.check("version", not want, "raised", f"{v} meets {r}")
        ctx.check("version", require_version(r, raiseonfail=False) is require_version(r, carbon.__version__, raiseonfail=False), "own", "")
        ctx.run((r, v), a != b)
    for bad in ("", "v1.2", "beta"):
        try: require_version(bad, "1.0", raiseonfail=False); ctx.check("version", False, "invalid", bad)
        except ValueError: ctx.ev("version")


def iseqs(ctx):
    from carbon.helpers import stdimports as SI
    rng = ctx.rng; iseq = SI.iseq
    for _ in range(20):
        eps = rng.choice([None, 1e-6, 1e-3, 1e-10]); e = eps or 1e-6
        a = rng.choice([0, 0., 1, -3, sig(rng, 1e-9, 1e9), -sig(rng, 1e-3, 1e3)])
        n = rng.randint(1, 4); ok = True; args = []
        for _ in range(n):
            if rng.random() < 0.7: d = rng.choice([0, 0.3, -0.3]) * e
            else: d = rng.choice([3, -3, 1e3, float("nan")]) * e; ok = False
            args.append(a + d if a == 0 else a * (1 + d))
        if not any(abs(d) < 1e-15 for d in (e,)): ctx.check("iseq", iseq(a, *args, **({} if eps is None else dict(eps=eps))) is ok, "numeric", f"iseq({a}, {args}, eps={eps}) expected {ok}")
        s = rng.choice(["x", None, (1, 2), [1]]); t = [rng.choice([s, s, s, "y"]) for _ in range(n)]
        ctx.check("iseq", bool(iseq(s, *t)) is all(q == s for q in t), "objects", f"{s} {t}")
        ctx.run((a, tuple(map(str, args)), eps), True)
    try: iseq(1); ctx.check("iseq", False, "noargs", "")
    except ValueError: ctx.ev("iseq")
    def f(x, y=1):
        if x != y: raise ValueError("differs %s" % x)
    ctx.check("iseq", SI.raises(f, 1) is False and SI.raises(f, 1, y=1) is False and SI.raises(f, 2) == "differs 2" and SI.raises(f, 1, y=5) == "differs 1", "raises", "")


def uint(ctx):
    rng = ctx.rng
    T = SolTestBase; E, W, L = T.LVL_ERR, T.LVL_WARN, T.LVL_LOG
    for _ in range(20):
        k = rng.choice([1, 2, 60, 100, 255, 256, 257, 300]); n = rng.choice([0, 1, 99, 100, 9999, 10000, -1, -10 ** 9, 2 ** k, 2 ** k - 1, 2 ** k + 1, rng.getrandbits(k), 2 ** 256 // 10000 * 2, 2 ** 256 // 20000, 2 ** 256 - 1, 2 ** 256])
        w = (E, True) if n < 0 or n >= 2 ** 256 else (E, False) if n < 100 else (W, False) if n < 10000 else (W, True) if n >= 2 ** 256 / 10000 else (L, False)
        if n >= 0: ctx.check("uint", T.bindig(n) == n.bit_length(), "bindig", f"{n}: {T.bindig(n)}")
        rec = []
        t = T(raise_lvl=rng.choice([None, T.LVL_ERR, T.LVL_WARN, T.LVL_NEVER]), tag=1)
        r = t.check_uint256(n, "lbl", "ctx", log_f=lambda **kw: rec.append(kw))
        ctx.check("uint", r == max(n, 0) and len(rec) == 1 and (rec[0]["level"], rec[0]["isoverflow"]) == w and rec[0]["label"] == "lbl" and rec[0]["context"] == "ctx", "level", f"{n}: {r} {rec} expected {w}")
        exc = {(E, True): T.OverflowError, (E, False): T.UnderflowError, (W, True): T.OverflowWarning, (W, False): T.UnderflowWarning}
        for lvl in (E, W, T.LVL_NEVER):
            t = T(raise_lvl=lvl, print_context=rng.choice([True, False]), tag=2)
            try: g = quiet(t, n, "lab"); ctx.check("uint", w[0] < lvl and g == max(n, 0), "not raised", f"{n} at level {lvl}: {g}")
            except (T.OutOfBoundsError, T.OutOfBoundsWarning) as e: ctx.check("uint", w[0] >= lvl and type(e) is exc[w] and "LAB" in str(e.args[0]) and e.args[1] == {"tag": 2}, "raised", f"{n} at level {lvl}: {e!r}")
        ctx.run(n, True)


def scales(ctx):
    rng = ctx.rng
    d = {k: 10. ** rng.randint(-6, 6) for k in rng.sample(["USDC", "ETH", "BNT", "X", "Y"], rng.randint(0, 4))}
    t = rng.choice([lambda: TokenScale.from_tokenscales(**d), lambda: TokenScale(dict(d)), lambda: TokenScale(scale_dct=dict(d))])(); o = TokenScale()
    for _ in range(6):
        if rng.random() < 0.4: k, v = rng.choice(["ETH", "Z", "BNT"]), 10. ** rng.randint(-3, 3); t.add_scale(k, v); d[k] = v
        for k in ("USDC", "ETH", "BNT", "X", "Y", "Z", "nope"):
            ctx.check("scale", t.scale(k) == t(k) == d.get(k, 1e-2), "scale", f"{k}: {t.scale(k)} of {d}")
            ctx.check("scale", o(k) == 1e-2 and TokenScale1Data(k) == 1 == TokenScale1().scale(k), "default", k)
    ctx.check("scale", [TokenScaleData(k) for k in ("USDC", "LINK", "AAVE", "WETH", "ETH", "WBTC", "??")] == [1, 10, 100, 1000, 1000, 10000, 1e-2], "data", "")
    try: TokenScaleBase().scale("X"); ctx.check("scale", False, "base", "")
    except NotImplementedError: ctx.ev("scale")
    ctx.run(tuple(sorted(d.items())), bool(d))


CASES = [("shared", shared, 250, 20000), ("params", params, 100, 6000), ("versions", versions, 60, 3000), ("iseqs", iseqs, 60, 3000), ("uint", uint, 40, 2000), ("scales", scales, 30, 500)]
