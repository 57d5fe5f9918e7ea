"""the whitepaper formula library: equations on real curves, formula container, tags, equation arithmetic"""
import os, sys, re, io, contextlib, importlib.abc, importlib.machinery
from vlib.core import REPO, close
from vlib.cpclib import quiet, sig
from carbon import CarbonOrderUI

PID = "P41"
RULE = ("every equation of the library on random curves, positions and swaps, at 60 digits and with the numbers of a CarbonOrderUI, each also with every one of its quantities changed by 10% (which must break it); random histories of "
        "formula containers and tags against a dictionary model; random expressions through equation arithmetic, evaluated numerically; distinct by input; non-trivial if an equation with several quantities, or a history of several operations")
ASSUME = ["SymPy and mpmath are those of the verification tooling (the repository's environment has none)",
          "swap amounts: the r/rho forms count the change of the holdings (negative), the B,S forms the amount sold (positive), as their text says",
          "re-adding an aliased key, and aliases combined with a default namespace, are unspecified"]
REQUIRED = ["exact", "sensitive", "quantities", "simulator", "lookup", "refuse", "filter", "desmos", "latex", "tags", "arith", "solve", "subst"]
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SPEC = {}
for l in r"""PIE|y|P_0 \Gamma x x_0 y
PINE|y|P_0 \Gamma x y y_0
PIQE|Q|Q x x_{int} y y_{int}
PIQ2E||Q x x_{int} y y_{int}
PIRE|y|P_0 \Gamma r x y
PIRIE|y|P_0 \Gamma \rho x_0 y
PIA1E||\kappa x x_{asym} y y_{asym}
SE||P_0 \Delta{x} \Delta{y} \Gamma x x_0
SRE||P_0 \Delta{x} \Delta{y} \Gamma r x
SRIE||P_0 \Delta{x} \Delta{y} \Gamma \rho x_0
MSE||P_0 \Gamma dx dy x x_0
MPE|P_{marg}|P_0 P_{marg} \Gamma x x_0
MPERev|P_{marg}|P_0 P_{marg} \Gamma y y_0
MPQXiE|P_{marg}|P_0 P_{marg} Q x x_{int}
MPQYiE|P_{marg}|P_0 P_{marg} Q y y_{int}
MPWYiE|P_{marg}|P_0 P_{marg} w y y_{int}
P0WYiE|P_0|P_0 P_{marg} w y y_{int}
PLE|\kappa|\Gamma \kappa k
KPYDE|\kappa|\Gamma \kappa x_0 y_0
GSE||P_x P_y \kappa k
MPRE|P_{marg}|P_0 P_{marg} \Gamma r
MPRIE|P_{marg}|P_0 P_{marg} \Gamma \rho
BDE|B|B P_x
SDE|S|P_x P_y S
BSPIE||B S x y y_{int}
BSPIYE|y|B S x y y_{int}
BSPIXE|x|B S x y y_{int}
BSSE|\Delta{y}|B S \Delta{x} \Delta{y} y y_{int}
BSRSE|\Delta{x}|B S \Delta{x} \Delta{y} y y_{int}
MPBSE|P_{marg}|B P_{marg} S y y_{int}
YMPE|y|B P_{marg} S y y_{int}
QGDE|Q|Q \Gamma
GQE|\Gamma|Q \Gamma
GFQE||Q \Gamma
XiDE|x_{int}|\Gamma x_0 x_{int}
YiDE|y_{int}|\Gamma y_0 y_{int}
XiQE|x_{int}|Q x_0 x_{int}
YiQE|y_{int}|Q y_0 y_{int}
PxDE|P_x|P_0 P_x Q
PyDE|P_y|P_0 P_y Q
PXYE|P_0|P_0 x_0 y_0
PXYiE|P_0|P_0 x_{int} y_{int}
QPE|Q|P_x P_y Q
WDE|w|P_x P_y w
WE|w|Q w
PPE|P_0|P_0 P_x P_y
XiPE|x_{int}|P_x P_y x_{int} y_{int}
YiPE|y_{int}|P_x P_y x_{int} y_{int}
XADE|x_{asym}|\Gamma x_0 x_{asym}
YADE|y_{asym}|\Gamma y_0 y_{asym}
YAXDE|y_{asym}|P_0 \Gamma x_0 y_{asym}
KPDE|\kappa|P_0 \Gamma \kappa x_0
RXE|x_0|r x x_0
RXIE|x|\rho x x_0""".split("\n"):
    k, lhs, syms = l.split("|"); SPEC[k] = (lhs, frozenset(syms.split()))
NEG = ("SE", "SRE", "SRIE")
G = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, n, p=None, t=None):
        if n in ("sympy", "mpmath"): return importlib.machinery.PathFinder.find_spec(n, [SITE])


def setup():
    sys.dont_write_bytecode = True
    sys.meta_path.append(Finder())
    import sympy, mpmath
    mpmath.mp.dps = 60
    G.update(sp=sympy, mp=mpmath, F={})
    sys.path.insert(0, os.path.join(REPO, "resources", "whitepaper"))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import CarbonCalculations as C, formulalib, taglib, sympyx
        G.update(C=C, fl=formulalib, tl=taglib, X=sympyx)
        for k in C.FORMULAS.keys():
            eq = C.FORMULAS[k]
            if not isinstance(eq, sympy.Eq): G["F"][k] = None; continue
            s = sorted(eq.free_symbols, key=str)
            G["F"][k] = (eq, [str(x) for x in s], sympy.lambdify(s, [eq.lhs, eq.rhs], "mpmath"))
        listed = [C.FORMULAS[k] for k in C.FORMULAS.keys()]
        for n, eq in vars(C).items():       # equations of the sheet that are not exported
            if isinstance(eq, sympy.Eq) and not n.startswith("_") and not any(eq is x for x in listed):
                s = sorted(eq.free_symbols, key=str); G["F"]["sheet:" + n] = (eq, [str(x) for x in s], sympy.lambdify(s, [eq.lhs, eq.rhs], "mpmath"))
    except Exception as e:
        G["broken"] = f"{type(e).__name__}: {e}"


def need(ctx):
    if "broken" in G: ctx.fail("library-does-not-load", G["broken"])


def residual(f, val):
    l, r = f[2](*[val[n] for n in f[1]]); m = max(abs(l), abs(r))
    return (abs(l - r) / m if m else m), l, r


def judge(ctx, mon, V, tol, sens):
    F = G["F"]
    for k in SPEC: ctx.check("quantities", k in F and F[k] is not None, "missing", k)
    for k, f in F.items():
        ctx.check("quantities", f is not None, "not-an-equation", k)
        lhs, syms = SPEC.get(k, ("", None))
        if syms: ctx.check("quantities", frozenset(f[1]) == syms, "quantities", f"{k}: {f[1]} expected {sorted(syms)}")
        if lhs: ctx.check("quantities", str(f[0].lhs) == lhs, "solved-for", f"{k} is solved for {f[0].lhs}, expected {lhs}")
        if not syms and not set(f[1]) <= set(V): ctx.cover("unknown quantity in " + k); continue
        val = dict(V)
        if k not in NEG: val["\\Delta{y}"] = -val["\\Delta{y}"]
        res, l, r = residual(f, val)
        ctx.check(mon, res <= tol, "equation:" + k, f"{k}: {f[0]}: {G['mp'].nstr(l, 15)} != {G['mp'].nstr(r, 15)} with {[(n, G['mp'].nstr(val[n], 12)) for n in f[1]]}")
        if sens:
            for n in f[1]:
                v2 = dict(val); v2[n] = val[n] * G["mp"].mpf("1.1")
                if n == "\\Gamma" and v2[n] >= 1: v2[n] = val[n] * G["mp"].mpf("0.9")
                try: res2, l, r = residual(f, v2)
                except ZeroDivisionError: continue
                ctx.check("sensitive", res2 > tol, "vacuous:" + k, f"{k}: {f[0]} holds whatever {n} is")


def exact(ctx):
    need(ctx); rng = ctx.rng; mp = G["mp"]; M = mp.mpf
    Px = M(sig(rng, 1e-6, 1e6)); Py = Px * (1 + M(rng.choice([1e-4, .01, .1, 1, 10, 1000])) * M(rng.uniform(.5, 1.5)))
    yi = M(sig(rng, 1e-4, 1e7)); y = yi * M(rng.choice([.5, rng.uniform(.01, .99), rng.uniform(.01, .99), 1e-4, 1 - 1e-4])); B = mp.sqrt(Px); S = mp.sqrt(Py) - B
    # position by the price: dx = dy/p along the curve, sqrt(p) linear in y
    sq = lambda y: B + S * y / yi
    x_of = lambda y: yi / S * (1 / sq(y) - 1 / sq(yi))
    y2 = y * (1 - M(rng.choice([.5, rng.uniform(.001, .999), 1e-3]))); x = x_of(y)
    Q = mp.sqrt(Px / Py); g = 1 - mp.sqrt(Q); xi = x_of(M(0))
    # reference point: where the marginal price is the geometric mean of the range
    y0 = yi / S * (mp.sqrt(mp.sqrt(Px * Py)) - B); x0 = x_of(y0); p = sq(y) ** 2
    xa = -yi / S / sq(yi); ya = -yi * B / S
    V = {"x": x, "y": y, "x_{int}": xi, "y_{int}": yi, "x_0": x0, "y_0": y0, "P_0": mp.sqrt(Px * Py), "P_x": Px, "P_y": Py, "P_{marg}": p, "Q": Q, "\\Gamma": g, "w": Py / Px, "B": B, "S": S,
         "x_{asym}": xa, "y_{asym}": ya, "\\kappa": (x - xa) * (y - ya), "k": x0 * y0, "r": x0 / x, "\\rho": x / x0, "\\Delta{x}": x_of(y2) - x, "\\Delta{y}": y2 - y, "dx": M(1), "dy": -p}
    ctx.log({k: mp.nstr(v, 15) for k, v in V.items()}); ctx.cover("w<%g" % [t for t in (1.001, 1.1, 3, 30, 1e9) if V["w"] < t][0])
    judge(ctx, "exact", V, M(10) ** -35, rng.random() < .5)
    ctx.run(("e", mp.nstr(Px, 12), mp.nstr(Py, 12), mp.nstr(y, 12), mp.nstr(y2, 12)))


def simulator(ctx):
    need(ctx); rng = ctx.rng; M = G["mp"].mpf
    tkn = rng.choice(["ETH", "USDC"]); lo = sig(rng, 1e-4, 1e6); hi = lo * (1 + rng.choice([.02, .1, 1, 10, 100]) * rng.uniform(.5, 1.5)); yi = sig(rng, 1e-2, 1e6); y = yi * rng.uniform(.05, .95)
    o = CarbonOrderUI.from_prices(pair="ETH/USDC", tkn=tkn, pa=lo if tkn == "ETH" else hi, pb=hi if tkn == "ETH" else lo, yint=yi, y=y)
    sold = y * rng.uniform(.05, .95); dx = o.dxfromdy_f(sold)
    if rng.random() < .5: sold = o.dyfromdx_f(dx)
    pm = 1 / o.p_marg if o.reverseq else o.p_marg
    V = {"x": o.x, "y": o.y, "x_{int}": o.xint, "y_{int}": o.yint, "x_0": o.x0, "y_0": o.y0, "P_0": o.p0_raw, "P_x": o.pb_raw, "P_y": o.pa_raw, "P_{marg}": pm, "Q": o.Q, "\\Gamma": o.Gamma, "w": o.widthr,
         "B": o.B, "S": o.S, "x_{asym}": o.xasym, "y_{asym}": o.yasym, "\\kappa": o.kappa, "k": o.x0 * o.y0, "r": o.x0 / o.x, "\\rho": o.x / o.x0, "\\Delta{x}": dx, "\\Delta{y}": -sold, "dx": 1, "dy": -pm}
    ctx.log(V); ctx.cover("sim " + tkn)
    judge(ctx, "simulator", {k: M(v) for k, v in V.items()}, 1e-6, False)
    ctx.run(("s", tkn, lo, hi, yi, y, sold))


# ---------------------------------------------------------------- formula container and tags
KEYS = ["PIE", "SE", "a", "b1", "Key_2", "x_y", "Zz", "MPE2"]
NS = [None, None, "", "core", "n2", "Sub_1"]
TAGS = ["core", "swap", "price", "b s", "é1"]


def expr(rng, syms, depth=2):
    sp = G["sp"]
    if depth == 0: return rng.choice(syms) if rng.random() < .75 else sp.Integer(rng.randint(2, 9))
    a, b = expr(rng, syms, depth - 1), expr(rng, syms, depth - 1); u = rng.random()
    if u < .3: return a + b
    if u < .4: return a + sp.Rational(1, 2) * b
    if u < .65: return a * b
    if u < .85: return a / b
    if u < .95: return a ** rng.choice([2, 3])
    return sp.sqrt(a + b)


def tagstr(rng):
    t = rng.sample(TAGS, rng.randint(1, 3)); sp_ = lambda x: rng.choice([x, x.upper(), " " + x, x.title() + "  "])
    return ",".join(sp_(x) for x in t + t[:rng.randint(0, 1)]), set(t)


def desmos_value(s, env):
    """evaluates a desmos string: ^ is the power, juxtaposition the product"""
    tok = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|\d+\.?\d*|[-+/^()]", s)
    if "".join(tok) != s.replace(" ", ""): return None
    out = []
    for a, b in zip(tok, tok[1:] + [""]):
        out.append("**" if a == "^" else "M(%r)" % a if re.match(r"\d", a) else a)
        if (re.match(r"\w", a) or a == ")") and (re.match(r"\w", b) or b == "(") and not (a == "sqrt" and b == "("): out.append("*")
    return eval("".join(out), dict(env, M=G["mp"].mpf, sqrt=G["mp"].sqrt))


def library(ctx):
    need(ctx); rng = ctx.rng; sp = G["sp"]; Fs = G["fl"].Formulas; mp = G["mp"]
    syms = sp.symbols("a b c y_0"); env = {str(s): mp.mpf(rng.uniform(.5, 3)) for s in syms}

    def new():
        kw = {}; d = {"raise": True, "ns": None}
        if rng.random() < .5: kw["raiseonerror"] = d["raise"] = rng.random() < .5
        if rng.random() < .4: kw["defaultns"] = d["ns"] = rng.choice(["core", "dflt"])
        if rng.random() < .4: kw.update(version="1.%d" % rng.randint(0, 9), date="1/Jan/2023")
        f = Fs(**kw); ctx.check("lookup", (f.version, f.date, f.raiseonerror, f.defaultns) == (kw.get("version"), kw.get("date"), d["raise"], d["ns"]), "attributes", f"{kw} {f.defaultns}"); ctx.log("new", kw)
        return f, d, {}
    def item(): e = expr(rng, syms, rng.randint(1, 3)); return e if rng.random() < .5 else sp.Eq(rng.choice(syms), e + 1, evaluate=False)
    objs = [new() for _ in range(rng.randint(1, 3))]; aliased = [set() for _ in objs]
    n = rng.randint(3, 15)
    for step in range(n):
        j = rng.randrange(len(objs)); f, d, m = objs[j]; u = rng.random()
        if u < .55 or not m:
            k = rng.choice(KEYS); ns = rng.choice(NS); eff = d["ns"] if ns is None else ns; full = f"{eff}.{k}" if eff else k
            if full in aliased[j]: continue
            it = item(); kw = {}
            if rng.random() < .6: kw["title"] = rng.choice(["T", "Swap \\alpha", ""])
            if rng.random() < .6: kw["comment"] = "about " + k
            ts = set()
            if rng.random() < .6: kw["tagstr"], ts = tagstr(rng)
            if ns is not None or rng.random() < .3: kw["ns"] = ns
            var = rng.random() < .3; al = []
            if var and rng.random() < .5: r = f.addvar(k, it, **kw)
            else:
                if not var and rng.random() < .5:
                    al = [a for a in rng.sample(["al1", "al2", "Other"], rng.randint(0, 3)) if (f"{eff}.{a}" if eff else a) not in m and (full not in m)]; kw["aliases"] = rng.choice([list, tuple])(al)
                if var or rng.random() < .2: kw["isvariable"] = rng.choice([var, int(var)])
                r = f.add(k, it, **kw)
            ctx.check("lookup", r is it or r == it, "add-returns", "")
            e = (it, kw.get("title"), kw.get("comment"), full, var, ts); m[full] = e; ctx.log(j, "add", full, kw)
            for a in al: a = f"{eff}.{a}" if eff else a; m[a] = e; aliased[j] |= {a, full}
        elif u < .7:
            k = rng.choice(list(m)); a = "A%d" % step
            if "." in k and rng.random() < .6: ns, kk = k.split("."); f.alias(a, kk, ns); a = f"{ns}.{a}"
            else:
                if rng.random() < .5: a = "q." + a
                f.alias(a, k)
            m[a] = m[k]; aliased[j] |= {a, k}; ctx.log(j, "alias", a, k)
            bad = "nokey%d" % step
            try: f.alias("zz", bad); ctx.check("refuse", False, "alias-of-nothing", "")
            except KeyError: ctx.ev("refuse")
        elif u < .8:
            old = d["ns"]; d["ns"] = rng.choice([None, "core", "other"]); r = f.setdefaultns(d["ns"]) if d["ns"] or rng.random() < .5 else f.setdefaultns()
            ctx.check("lookup", r == old and f.defaultns == d["ns"], "default-namespace", f"{r} {old}"); ctx.log(j, "ns", d["ns"])
        elif len(objs) > 1:
            o = rng.choice([x for x in range(len(objs)) if x != j]); ns = rng.choice([None, "", "imp", "core"]); r = f.addfrom(objs[o][0], ns) if ns is not None else f.addfrom(objs[o][0])
            ctx.check("lookup", r is f, "addfrom-chain", "")
            for k, v in objs[o][2].items(): k = f"{ns}.{k}" if ns and "." not in k else k; m[k] = v; aliased[j].add(k)
            ctx.log(j, "addfrom", o, ns)
    for f, d, m in objs:
        ctx.check("lookup", sorted(f.keys()) == sorted(m), "keys", f"{f.keys()} expected {list(m)}")
        for v in (None, True, False):
            for ns in (None, "", "core", "n2", "imp", "nothere"):
                ctx.check("lookup", sorted(f.keys(vars=v, ns=ns)) == sorted(k for k, e in m.items() if (v is None or e[4] is v) and (ns is None or (k.split(".")[0] if "." in k else "") == ns)), "keys-filter", f"{f.keys(vars=v, ns=ns)} {v} {ns} {list(m)}")
        same = lambda fi, e: fi.item == e[0] and (fi.title, fi.comment, fi.isvariable) == (e[1], e[2], e[4]) and all(fi.tags.has(t) for t in e[5]) and not any(fi.tags.has(t) for t in TAGS if t not in e[5])
        for k, e in m.items():
            ctx.check("lookup", f.getitem(k) == e[0] and f[k] == e[0] and f.get(k) == e[0] and f.get(k, 7) == e[0], "item", f"{k}: {f[k]} expected {e[0]}")
            ctx.check("lookup", f.gettitle(k) == e[1] and f.getcomment(k) == e[2], "text", f"{k}: {f.gettitle(k)} {f.getcomment(k)} {e}")
            ctx.check("lookup", same(f.getfullitem(k), e), "full-item", f"{k}: {f.getfullitem(k)} expected {e}")
            for t in TAGS: ctx.check("tags", f.hastag(k, rng.choice([t, t.upper(), f" {t} "])) is (t in e[5]), "hastag", f"{k} {t} {e[5]}")
            ctx.check("latex", f.getlatex(k) == sp.latex(e[0]), "latex", f.getlatex(k))
            ctx.check("lookup", f.ns(k) == (k.split(".")[0] if "." in k else "") and tuple(f.nskey(k)) == (tuple(k.split(".")) if "." in k else ("", k)), "namespace", k)
            e0 = e[0]; ds = f.to_desmos(k if rng.random() < .5 else e0)
            sides = zip(ds, (e0.lhs, e0.rhs)) if isinstance(e0, sp.Eq) else [(ds, e0)]
            for s, x in sides:
                v = mp.mpf(sp.N(x.subs({y: sp.Float(env[str(y)], 40) for y in syms}), 30)); w = desmos_value(s, env)
                ctx.check("desmos", w is not None and "*" not in s and abs(w - v) <= 1e-12 * abs(v), "desmos", f"{s!r} means {w}, the formula {x} is {v}")
        sub = rng.sample(list(m), min(len(m), 2)); a = f.getall(sub) if rng.random() < .5 else f.getall(keylist=tuple(sub)); full = f.getall()
        ctx.check("lookup", sorted(a) == sorted(sub) and sorted(full) == sorted(m) and all(same(full[k], m[k]) for k in m) and all(same(a[k], m[k]) for k in sub), "getall", f"{sub} {list(a)}")
        bad = rng.choice(["nokey", "core.nokey", "pie", ""])
        for g in (f.getfullitem, f.getitem, f.getcomment, f.gettitle, f.getlatex):
            for rz in (None, True, False):
                try: r = g(bad) if rz is None and rng.random() < .5 else g(bad, raiseonerror=rz)
                except KeyError: ctx.check("refuse", (d["raise"] if rz is None else rz), "raised", f"{g.__name__} {rz} {d}")
                else: ctx.check("refuse", r is None and not (d["raise"] if rz is None else rz), "not-raised", f"{g.__name__} {rz} {d} {r}")
        o = object(); ctx.check("refuse", f.get(bad) is None and f.get(bad, o) is o and f[bad] is None and f.hastag(bad, "core") is None, "missing-key", "")
        # text filter
        ks = list(m) + ["nokey", "core.zz"]; text, exp, plain = "", "", [" text $x$ ", "\n", "$$y=1$$", "==$$", " \\1 \\g<0> ", "$$= bad =$$", "é", "*a*"]
        for _ in range(rng.randint(0, 6)):
            if rng.random() < .5: k = rng.choice(ks); text += f"$$={k}=$$"; exp += f"$$\n{sp.latex(m[k][0])}\n$$" if k in m else f"$$!=ERROR[{k}]=$$"
            else: s = rng.choice(plain); text += " " + s + " "; exp += " " + s + " "
        ctx.check("filter", f.filter(text) == exp and f(text) == exp, "filter", f"{text!r} -> {f(text)!r}, expected {exp!r}")
        if m:
            k = rng.choice(list(m)); ctx.check("filter", f(f"a @@{k}@@ $$={k}=$$", r"@@([\w\.]+)@@") == f.filter(f"a @@{k}@@ $$={k}=$$", pattern=r"@@([\w\.]+)@@") == f"a $$\n{sp.latex(m[k][0])}\n$$ $$={k}=$$", "pattern", "")
    fs = [rng.choice([lambda v: v + 1, lambda v: v * 2, lambda v: v - 3]) for _ in range(rng.randint(0, 4))]; v = rng.randint(0, 9); w = v
    for g in fs: w = g(w)
    ctx.check("lookup", Fs.eval(fs, v) == w, "eval", f"{Fs.eval(fs, v)} {w}")
    ctx.run(("l", [sorted(m) for _, _, m in objs], text), n > 4)


def tags(ctx):
    need(ctx); rng = ctx.rng; T = G["tl"].Tags; P = []
    for step in range(rng.randint(3, 12)):
        u = rng.random()
        if u < .4 or not P:
            if rng.random() < .25: P.append((rng.choice([T, T.fromstr, lambda: T.fromstr(None)])(), set()))
            else: s, t = tagstr(rng); P.append((T.fromstr(s), t)); ctx.log("new", s)
        elif u < .7:
            i = rng.randrange(len(P)); s, t = tagstr(rng); r = P[i][0].addstr(s); ctx.check("tags", r is P[i][0], "chain", ""); P[i] = (r, P[i][1] | t); ctx.log(i, "addstr", s)
        else:
            i, j = rng.randrange(len(P)), rng.randrange(len(P)); r = P[i][0].add(P[j][0]); ctx.check("tags", r is P[i][0], "chain", ""); P[i] = (r, P[i][1] | P[j][1]); ctx.log(i, "add", j)
        for x, t in P:
            for y in TAGS: ctx.check("tags", x.has(rng.choice([y, y.upper(), " " + y + "\t"])) is (y in t), "has", f"{y} in {x} expected {t}")
            ctx.check("tags", sorted(y for y in x.str.split(",") if y) == sorted(t) and sorted(y for y in str(x).split(",") if y) == sorted(t), "str", f"{x.str} {t}")
    ctx.run(("t", [sorted(t) for _, t in P]), step > 1)


# ---------------------------------------------------------------- equation arithmetic
def arith(ctx):
    need(ctx); rng = ctx.rng; sp = G["sp"]; X = G["X"]; mp = G["mp"]
    a, b, c, d_, v = sy = sp.symbols("a b c d v"); env = {s: sp.Float(repr(rng.uniform(.5, 2)), 40) for s in sy}
    num = lambda e: complex(sp.N(sp.sympify(e).subs(env), 30))
    eqs = lambda: (X.Eq if rng.random() < .6 else X.XEq)(expr(rng, (a, b), rng.randint(0, 2)) * a, expr(rng, (c, d_), rng.randint(0, 2)) * c)
    near = lambda p, q: abs(p - q) <= 1e-10 * max(1e-3, abs(p), abs(q))
    E = eqs()
    if not isinstance(E, sp.Eq): ctx.skip("trivial equation")
    ctx.check("arith", isinstance(E, X.XEq), "type", type(E))
    for _ in range(rng.randint(2, 5)):
        L, R = num(E.lhs), num(E.rhs); u = rng.random(); o = None
        if u < .2: op, r, fl = "invert", E.invert(), lambda p, q: 1 / p
        elif u < .3: op, r, fl = "neg", (E.neg() if rng.random() < .5 else -E), lambda p, q: -p
        elif u < .4: op, r, fl = "swap", E.swap(), None
        elif u < .5:
            op, r, fl = "simplify1", E.simplify1(), lambda p, q: p
        else:
            o2 = eqs()
            o = rng.choice([o2 if isinstance(o2, sp.Eq) else 4, sp.Eq(expr(rng, (a, c), 1) * b, expr(rng, (b, d_), 1) * d_ + 1, evaluate=False), rng.randint(2, 5), sp.Rational(3, 2), expr(rng, (a, d_), 1)])
            op = rng.choice("+-*/^"); refl = rng.random() < .5 and isinstance(o, (int, sp.Eq)); fn = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q, "^": lambda p, q: p ** q}[op]
            if op == "^":
                if isinstance(o, (sp.Eq, sp.Expr)) or rng.random() < .5: o = rng.choice([2, sp.Rational(1, 2), 3])
                refl = refl and isinstance(o, int)
            if not refl and isinstance(o, sp.Expr) or isinstance(o, (int, sp.Eq)): r = fn(o, E) if refl else fn(E, o)
            else: r = fn(E, o)
            fl = (lambda p, q: fn(q, p)) if refl else fn
        ctx.log(op, o, "on", E, "->", r)
        if not isinstance(r, sp.Eq): ctx.cover("collapsed"); break
        ctx.check("arith", isinstance(r, X.XEq), "type", type(r))
        if op == "swap": e1, e2 = R, L
        else:
            ol, orr = (num(o.lhs), num(o.rhs)) if isinstance(o, sp.Eq) else (num(o), num(o)) if o is not None else (0, 0)
            try: e1, e2 = fl(L, ol), fl(R, orr)
            except OverflowError: break
        g1, g2 = num(r.lhs), num(r.rhs)
        if max(abs(e1), abs(e2)) > 1e6 or min(abs(e1), abs(e2)) < 1e-6: break
        ctx.check("arith", near(e1, g1) and near(e2, g2), "arith:" + op, f"{E} {op} {o}: {r} is {g1}={g2}, expected {e1}={e2}"); ctx.cover(op + ("r" if o is not None and refl else "") + type(o).__name__)
        E = r
    # isolating, substituting, simplifying
    t = expr(rng, (a, b), 1); k = rng.randint(1, 4); w = expr(rng, (c, d_), 1)
    quad = rng.random() < .4
    q = X.Eq(t * (v ** 2 if quad else v) + k, w + k + a); ix = rng.randint(0, 1) if quad else 0
    iso = q.isolate(v, ix) if ix or rng.random() < .5 else q.isolate(v)
    sol = complex(num(w + a) / num(t)); s = num(iso.rhs)
    ctx.check("solve", iso.lhs == v and near(s * s if quad else s, sol) and v not in iso.rhs.free_symbols, "isolate", f"{q} -> {iso}: {s}")
    if quad: ctx.check("solve", near(num(q.isolate(v, 0).rhs), -num(q.isolate(v, 1).rhs)), "both-roots", f"{q}")
    rel = X.Eq(a, expr(rng, (c, d_), 1) + 1); base = X.Eq(t + a, w * b + a ** 2 + v); e2 = dict(env); e2[a] = sp.Float(0)
    av = sp.N(rel.rhs.subs(env), 40); num2 = lambda e: complex(sp.N(sp.sympify(e).subs({**env, a: av}), 30))
    for r in (base.subs_eq(rel), base.s(rel)):
        if isinstance(r, sp.Eq): ctx.check("subst", a not in r.free_symbols and near(num(r.lhs) - num(r.rhs), num2(base.lhs) - num2(base.rhs)), "subs_eq", f"{base} {rel} -> {r}")
    ex = w + a * b + a
    for r in (X.subs(ex, rel), X.subs(ex, rel, simplify=False), X.subs(ex, rel, True)): ctx.check("subst", a not in sp.sympify(r).free_symbols and near(num(r), num2(ex)), "subs", f"{ex} {rel} -> {r}")
    # a simplified equation has the same solution
    tv = num(w + a) / num(t) if not quad else (num(w + a) / num(t)) ** .5
    for r in (q.simplify0(), q.sy()):
        if isinstance(r, sp.Eq):
            at = lambda z: complex(sp.N((r.lhs - r.rhs).subs({**env, v: sp.Float(repr(z.real), 30)}), 20))
            ctx.check("solve", abs(at(tv)) <= 1e-9 * max(1, abs(at(tv * 2))) and abs(at(tv * 1.5)) > 1e-9, "simplify", f"{q} -> {r}")
    ctx.run(("a", str(E), str(q), str(rel)))


CASES = [("exact", exact, 120, 3000), ("simulator", simulator, 120, 3000), ("library", library, 120, 3000), ("tags", tags, 100, 1000), ("arith", arith, 120, 3000)]
