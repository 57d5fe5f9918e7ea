"""conventions of token pairs: CarbonPair and SimplePair"""
from vlib.simlib import *
from vlib.core import close
import itertools, contextlib, io
from fractions import Fraction as F
from carbon.pair import CarbonPair
from carbon.tools.simplepair import SimplePair
from carbon.tools.cpc import Pair as CpcPair

PID = "P17"
RULE = ("random token names (contained in each other, sharing prefixes, lower and mixed case, with digits, dashes and dots, numeraire tokens) in pairs "
        "built through every constructor; amounts and prices over 60 orders of magnitude; every conversion compared with an independent rule, "
        "its inverse and the reversed pair; distinct by tokens, decimals and numbers; non-trivial always")
ASSUME = ["prices and amounts are positive floats, ints or Decimals", "two different tokens without slash in their name",
          "iso splitting only where the given token leaves one reading or starts the name"]
REQUIRED = ["construct", "convert", "price", "limit", "reverse", "decimals", "membership", "reject", "simple", "primary"]

NUM = list(SimplePair.NUMERAIRE_TOKENS)
NAMES = ["ETH", "WETH", "USDC", "BNT", "VBNT", "A", "AB", "ABA", "B", "BAB", "eth", "wstETH", "1INCH", "3Crv", "USD", "USDC.e", "xSUSHI", "LINK", "DAI", "T-0"]


def tok(rng):
    k = rng.random()
    if k < 0.5: return rng.choice(NAMES)
    if k < 0.75: return rng.choice(NUM)
    return "".join(rng.choice("ABCXYZabz019") for _ in range(rng.choice([1, 2, 3, 4, 6])))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def num(rng, kind=None):
    v = 10 ** rng.uniform(-30, 30) if rng.random() < 0.3 else 10 ** rng.uniform(-4, 4)
    k = kind or rng.choice(["float", "int", "dec"])
    return float("%.12g" % v) if k == "float" else max(1, int(v)) if k == "int" else D(repr(float("%.12g" % v)))


def carbonpair(ctx):
    rng = ctx.rng
    b, q = tok(rng), tok(rng)
    if b.upper() == q.upper(): q = q + "X"
    B, Q = b.upper(), q.upper()
    ctx.log("pair", b, q)
    p = CarbonPair(f"{b}/{q}")
    ways = [p, CarbonPair(tknb=b, tknq=q), CarbonPair.create(b, q), CarbonPair.create(f"{b}/{q}"), CarbonPair(p), CarbonPair.create(p),
            CarbonPair.from_slashpair(f"{b}/{q}"), CarbonPair.from_slashpair(f" {b} / {q} ")]
    if p.reverse.reverse == p or True: ways.append(p.reverse.reverse)
    for i, w in enumerate(ways):
        ctx.check("construct", (w.tknb, w.tknq, w.slashpair, w.pair_slash, w.pair_iso, w.basetoken, w.quotetoken, w.price_convention) ==
                  (B, Q, f"{B}/{Q}", f"{B}/{Q}", B + Q, B, Q, f"{Q} per {B}"), f"construct:{i}", f"way {i}: {w} for {b}/{q}")
    ctx.check("construct", (p.tknb_o, p.tknq_o, p.slashpair_o) == (b, q, f"{b}/{q}") and (p.tknb_d, p.tknq_d, p.slashpair_d) == (B, Q, f"{B}/{Q}"),
              "names", f"original and display names of {b}/{q}: {p.slashpair_o} {p.slashpair_d}")
    po = CarbonPair(f"{b}/{q}", display_orig=True)
    ctx.check("construct", (po.tknb_d, po.tknq_d, po.slashpair_d, po.slashpair) == (b, q, f"{b}/{q}", f"{B}/{Q}"), "names:orig", f"{po.slashpair_d}")
    for t, o in ((B, Q), (Q, B)):
        # a name that could be split in two ways is split at its start
        if o != t:
            first = (B + Q).startswith(t)
            exp = (t, (B + Q)[len(t):]) if first else (B, Q)
            w = CarbonPair.from_isopair_and_tkn(B + Q, t)
            ctx.check("construct", (w.tknb, w.tknq) == exp, "iso", f"{B+Q} split with {t} gives {w.tknb}/{w.tknq}, expected {exp}")
    if len(B) == len(Q) and len(B) in (3, 4):
        w = CarbonPair.from_isopair_and_tkn((b + q))
        ctx.check("construct", (w.tknb, w.tknq) == (B, Q), "iso:half", f"{w}")
    # membership
    for t in (B, Q, "NOPE", B + Q):
        e = {B: (True, True, False, Q), Q: (True, False, True, B)}.get(t, (False, False, False, None))
        ctx.check("membership", (p.has_token(t), p.has_basetoken(t), p.has_quotetoken(t), p.other(t)) == e, "membership", f"{t} in {p}")
    # conversion
    for _ in range(6):
        kind = rng.choice(["float", "int", "dec"])
        a, pr = num(rng, kind), num(rng, kind)
        A, PR = F(a), F(pr)
        for f, t, e in ((B, Q, A * PR), (Q, B, A / PR), (B, B, A), (Q, Q, A)):
            g = p.convert(a, f, t, pr)
            ctx.close("convert", D(g), D(e.numerator) / D(e.denominator), "convert", 1e-12, 0, f"{a} {f} into {t} at {pr} {p.price_convention}")
            back = p.convert(g, t, f, pr)
            ctx.close("convert", back, a, "convert:inverse", 1e-12, 0, f"{a} {f} to {t} and back at {pr}")
            if not isinstance(pr, int):
                g2 = p.reverse.convert(a, f, t, 1 / pr)
                ctx.close("convert", g2, g, "convert:reverse", 1e-12, 0, f"{a} {f} to {t} at {pr} by the reversed pair")
        ctx.check("convert", p.convert(a, "NOPE", B, pr) is None and p.convert(a, B, "NOPE", pr) is None, "convert:foreign", "")
        fp = float(pr)
        ctx.check("price", p.convert_price(pr, Q) == pr, "price:own", f"{pr}")
        ctx.close("price", p.convert_price(pr, B), D(PR.denominator) / D(PR.numerator), "price:other", 1e-12, 0, f"price {pr} in {B}")
        ctx.check("price", p.convert_price(None, Q) is None and p.convert_price(pr, "NOPE") is None, "price:none", "")
        ctx.close("price", p.price(fp, B, Q), fp, "price:norm", 1e-14, 0, "")
        ctx.close("price", p.price(fp, Q, B), 1 / fp, "price:norm-reverse", 1e-14, 0, "")
        ctx.close("price", p.reverse.price(fp, B, Q), 1 / fp, "price:norm-of-reverse", 1e-14, 0, "")
        ctx.check("price", p.price(fp, B, B) is None and p.price(fp, "NOPE", Q) is None and p.price(fp, B, "NOPE") is None, "price:norm-none", "")
        # limits: by what the order placer pays
        lim, cur = float(num(rng, "float")), None
        cur = lim * rng.choice([1, 1 + 1e-13, 1 - 1e-13, 1.5, 0.5, rng.uniform(0.9, 1.1)])
        for t in (B, Q):
            for bs in ("buy", "sell"):
                for rev in (False, True):
                    for prs, l, c in ((p, lim, cur), (p.reverse, 1 / lim, 1 / cur)):
                        if prs is not p and abs(cur / lim - 1) < 1e-12: continue
                        g = prs.limit_is_met(t, l, bs, c, reverse=rev)
                        price_t, limit_t = (cur, lim) if t == B else (1 / cur, 1 / lim)     # in the other token, per t
                        buys = (bs == "buy") != rev
                        e = True if cur == lim else (cur != lim and ((cur < lim) == ((t == B) == buys)))
                        ctx.check("limit", g is e, "limit", f"{bs} {t} at {c} with limit {l} {prs.price_convention} reverse={rev}: {g}")
                        ph = prs.limit_is_met(t, l, bs, c, reverse=rev, asphrase=True)
                        ctx.check("limit", ("does not" in ph) != e and t in ph, "limit:phrase", ph)
        ctx.check("limit", quiet(p.limit_is_met, "NOPE", lim, "buy", cur) is None, "limit:foreign", "")
    C = CarbonPair
    ctx.check("limit", (C.MAKERBUY, C.MAKERSELL, C.TAKERBUY, C.TAKERSELL) == (C.BUY, C.SELL, C.SELL, C.BUY), "limit:roles", "")
    # reverse
    r = p.reverse
    ctx.check("reverse", (r.tknb, r.tknq) == (Q, B) and (r.reverse.tknb, r.reverse.tknq) == (B, Q), "reverse", f"{r}")
    # decimals
    db, dq = rng.choice([0, 2, 6, 8, 18]), rng.choice([0, 2, 6, 8, 18])
    how = rng.choice(["set", "slash", "dct", "mixed", "mixed-b", "both", "sd"])
    p2 = CarbonPair(f"{b}/{q}")
    ctx.check("decimals", not p2.has_decimals and p2.decdiffqb is None and p2.decimals["_DIFFQB"] is None, "decimals:none", "")
    if how == "set": x = p2.set_decimals(db, dq)
    elif how == "sd": x = p2.sd(dec_tknq=dq, dec_tknb=db)
    elif how == "dct": x = p2.set_decimals(dct={B: db, Q: dq, "OTHER": 7})
    elif how == "mixed": x = p2.set_decimals(dec_tknq=dq, dct={B: db, Q: 77})
    elif how == "mixed-b": x = p2.set_decimals(db, dct={B: 77, Q: dq})
    elif how == "both": x = p2.set_decimals(db, dq, {B: 77, Q: 78})
    else: x = p2 = CarbonPair.from_slashpair(f"{b}/{q}", (db, dq))
    ctx.check("decimals", x is p2, "decimals:self", "")
    for w, (x0, x1) in ((p2, (db, dq)), (CarbonPair(p2), (db, dq)), (p2.reverse, (dq, db)), (p2.reverse.reverse, (db, dq))):
        d = w.decimals
        ctx.check("decimals", w.has_decimals and w.decdiffqb == x1 - x0 == d["_DIFFQB"] and (d["_TKNB"], d["_TKNQ"]) == (x0, x1) == (d[w.tknb], d[w.tknq]),
                  "decimals:" + how, f"{w} {d} expected {x0},{x1}")
        P = CarbonPair
        ctx.check("decimals", eval(repr(w)).decimals == d and eval(repr(w)) == w, "repr", repr(w))
    # refusals
    bad = [lambda: CarbonPair(), lambda: CarbonPair(tknb=b), lambda: CarbonPair(tknq=q), lambda: CarbonPair(f"{b}/{q}", tknb=b), lambda: CarbonPair(f"{b}/{q}", tknq=q),
           lambda: CarbonPair(f"{b}/{q}/{b}"), lambda: CarbonPair(b), lambda: CarbonPair.create(p, q), lambda: CarbonPair.from_slashpair(b),
           lambda: CarbonPair.from_slashpair("a/b/c"), lambda: CarbonPair.from_isopair_and_tkn(B + Q, "NOPE"), lambda: CarbonPair.from_isopair_and_tkn(B + Q, ""),
           lambda: CarbonPair.from_isopair_and_tkn("ABCDE"), lambda: CarbonPair.from_isopair_and_tkn("ABCDEFG"), lambda: CarbonPair.from_isopair_and_tkn("ABCDEFGHI"),
           lambda: CarbonPair.from_isopair_and_tkn("ABCD"), lambda: CarbonPair.from_isopair_and_tkn(""), lambda: CarbonPair.from_isopair_and_tkn("AMIDB", "MID")]
    i = rng.randrange(len(bad))
    for i in range(len(bad)):
        try:
            g = bad[i]()
            ctx.check("reject", False, f"reject:{i}", f"accepted: {g}")
        except ValueError:
            ctx.check("reject", True, "", "")
    ctx.check("reject", CarbonPair.create() is None, "reject:none", "")
    ctx.cover(how, "contained" if B in Q or Q in B else "plain")
    ctx.run((b, q, db, dq, how), True)
    ctx.sample((b, q, how))


def simple(ctx):
    rng = ctx.rng
    b, q = tok(rng), tok(rng)
    if rng.random() < 0.3: b += "-" + rng.choice(["eB48", "1ec7", "x"])
    if rng.random() < 0.3: q += rng.choice(["-eB48", "-x(1)", "(1)", "(1)-2"])
    if b == q: q += "Z"
    cls = rng.choice([SimplePair, CpcPair])
    if cls is CpcPair: q = q.split("(")[0]
    if b == q: q += "Z"
    ctx.log(cls.__module__, b, q)
    n = (lambda t: t.split("-")[0].split("(")[0]) if cls is SimplePair else (lambda t: t.split("-")[0])
    p = cls(f"{b}/{q}")
    for w in (p, cls((b, q)), cls([b, q]), cls(p), cls.from_tokens(b, q), cls.from_tokens(tknq=q, tknb=b)):
        ctx.check("simple", (w.tknb, w.tknq, w.tknx, w.tkny, w.pair, str(w), w.pairt, w.pairr, w.pairrt) ==
                  (b, q, b, q, f"{b}/{q}", f"{b}/{q}", (b, q), f"{q}/{b}", (q, b)), "simple", f"{w}")
    nb, nq = (p.tknb_n, p.tknq_n) if cls is SimplePair else (p.tknbp, p.tknqp)
    ctx.check("simple", (nb, nq) == (n(b), n(q)), "short-names", f"{nb} {nq}")
    rk = lambda t: NUM.index(n(t)) if n(t) in NUM else 10 ** 10
    prim = rk(q) < rk(b) if rk(q) != rk(b) else b < q
    r = cls(p.pairr)
    ctx.check("primary", p.isprimary == prim and r.isprimary == (not prim), "isprimary", f"{p}: {p.isprimary} {r.isprimary}, expected {prim}")
    ep, es = (f"{b}/{q}", f"{q}/{b}") if prim else (f"{q}/{b}", f"{b}/{q}")
    ctx.check("primary", p.primary == r.primary == ep and p.secondary == r.secondary == es, "primary", f"{p.primary} {r.primary}")
    x = float(num(rng, "float"))
    ctx.close("primary", p.pp(x), x if prim else 1 / x, "primary-price", 1e-14, 0, f"{p} at {x}")
    ctx.close("primary", p.primary_price(x), r.primary_price(1 / x), "primary-price-reverse", 1e-13, 0, f"{p} at {x}")
    ctx.check("simple", cls.unwrap(cls.wrap([p.pair, r.pair])) == (p.pair, r.pair), "wrap", "")
    try:
        cls(("a", "b", "c"))
        ctx.check("simple", False, "simple:reject", "accepted three tokens")
    except ValueError:
        ctx.check("simple", True, "", "")
    ctx.cover("simple:" + cls.__module__, "ranked" if rk(q) < 100 or rk(b) < 100 else "unranked")
    ctx.run((b, q, x), True)


CASES = [("carbon", carbonpair, 300, 8000), ("simple", simple, 600, 16000)]
