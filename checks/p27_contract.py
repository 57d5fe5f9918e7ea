"""integer arithmetic of the contract (benchmark/core/trade/impl.py) against exact rational arithmetic; its real-number specification (spec.py)"""
import sys, math
from fractions import Fraction as Fr
from decimal import Decimal as D, localcontext
from vlib.core import REPO
from vlib.simlib import RefOrder
from vlib.cpclib import quiet
sys.path.insert(0, REPO + "/benchmark")
from core.trade import impl, spec
from core import assertAlmostEqual
from carbon import CarbonSimulatorUI

PID = "P27"
ONE, M128 = 2 ** 48, 2 ** 128 - 1
RULE = ("orders with liquidity of 1 to 2^127 units, rates from 2^-80 to 2^80, ranges from a single price to 1:1000, at the top, within and at the bottom of the range, "
        "traded by source and by target for amounts from 1 unit to everything and too much; distinct by order and amount; non-trivial if the trade is not refused")
ASSUME = ["accuracy (2 units and 1e-8 relative) and liveness are claimed for amounts up to 2^90 units and rates between 2^-40 and 2^40; rounding against the trader always",
          "specification: 1e-40 relative"]
REQUIRED = ["rounding", "accuracy", "refused", "monotone", "roundtrip", "encode", "float", "spec", "spec-vs-impl", "simulator", "compare"]


def num(q): return f"{D(q.numerator) / D(q.denominator):.60g}" if q.denominator != 1 else str(q)


def rand_order(rng, wide=None):
    lb = rng.choice([4, 16, 40, 64, 90] if not wide else [100, 112, 127])
    rb = rng.choice([2, 10, 30, 40] if not wide else [10, 60, 80])
    y = rng.randrange(1, 2 ** rng.randint(1, lb))
    if rng.random() < 0.1: y = 2 ** rng.randint(0, lb - 1)
    L = Fr(2) ** rng.randint(-rb + 10 if rb > 20 else -rb, rb - 12 if rb > 20 else rb) * Fr(rng.choice([1, rng.random() + .5]))
    w = rng.choice([0, 1e-9, 1e-6, 1e-3, .1, 2, 1000])
    H = L * (1 + Fr(w * rng.uniform(0.1, 1)))
    M = L + (H - L) * Fr(rng.choice([1, 1, 0, rng.random(), 1e-3]))
    return dict(liquidity=str(y), lowestRate=num(L), highestRate=num(H), marginalRate=num(M)), w, lb, rb


def exact(e, method, x):
    """exact result of a trade on an encoded order"""
    y, z = e["y"], e["z"]; A, B = impl.decodeFloat(e["A"]), impl.decodeFloat(e["B"])
    t = A * y + B * z
    if method == "tradeBySourceAmount":
        den = A * x * t + (z * ONE) ** 2
        return Fr(x * t * t, den) if den else None
    den = t * (t - A * x)
    return Fr(x * (z * ONE) ** 2, den) if den > 0 else None


def trade(ctx):
    rng = ctx.rng
    wide = rng.random() < 0.25
    o, w, lb, rb = rand_order(rng, wide)
    y = int(o["liquidity"])
    ctx.log(o)
    Ld, Hd, Md = (D(o[k]) for k in ("lowestRate", "highestRate", "marginalRate"))
    keep = dict(o)
    try: e = impl.encodeOrder(o)
    except ZeroDivisionError:
        L, H, M = (impl.encodeRate(v) for v in (Ld, Hd, Md))
        ctx.check("encode", M == L != H, "encode:division", f"{o}")          # an order with holdings cannot be at the bottom of its range
        ctx.cover("bottom"); ctx.run((str(o),), False); return
    ctx.check("encode", o == keep, "input-changed", "")
    z = e["z"]; A, B = impl.decodeFloat(e["A"]), impl.decodeFloat(e["B"])
    ctx.check("encode", e["y"] == y and z >= y and all(isinstance(v, int) and v >= 0 for v in e.values()), "encode", f"{e}")
    # the encoded range is within the given one and close to it
    with localcontext() as c:
        c.prec = 100
        for nm, g, v in (("low", D(B) / ONE, Ld.sqrt()), ("high", D(A + B) / ONE, Hd.sqrt())):
            tol = (2 + 2 * v) * D(2) ** -47
            ctx.check("encode", v - tol <= g <= v, f"encode:{nm}", f"{g} for {v}")
        dec = impl.decodeOrder(e)
        ctx.check("encode", dec["liquidity"] == y and set(dec) == set(o), "decode:liquidity", "")
        if z:
            for nm, s in (("lowestRate", B), ("highestRate", A + B), ("marginalRate", B + D(A) * y / z)):
                ctx.check("encode", abs(dec[nm] - (D(s) / ONE) ** 2) <= abs(dec[nm]) * D("1e-60"), f"decode:{nm}", f"{dec}")
            m = Md.sqrt(); g = D(dec["marginalRate"]).sqrt(); span = D(A) / ONE
            if A and M_ok(Ld, Hd, Md):
                # capacity is rounded down to units, rates to 2^-48
                res = (2 + 2 * Hd.sqrt()) * D(2) ** -46
                f = (m - Ld.sqrt()) / (Hd.sqrt() - Ld.sqrt())
                rel = res / max(m - Ld.sqrt(), res) + 1 / D(z)
                ctx.check("encode", abs(g - m) <= res + (Hd.sqrt() - Ld.sqrt()) * min(rel * 4, 1), "encode:marginal", f"{g} for {m}")
    dom = not wide
    got = {}
    for method in ("tradeByTargetAmount", "tradeBySourceAmount"):
        full = exact(e, "tradeByTargetAmount", y)
        cap = y if method == "tradeByTargetAmount" else (min(int(full) + 1, M128) if full is not None else 2 ** 20)
        last = None
        amts = sorted({0, 1, cap, max(1, cap // 2), max(1, int(cap * rng.random())), rng.randrange(1, cap + 1)})
        for x in amts:
            g = getattr(impl, method)(x, e)
            ctx.check("refused", isinstance(g, int) and 0 <= g <= M128, "range", f"{g}")
            ctx.check("rounding", impl.execute(method, str(x), o) == g, "execute", "")
            ex = exact(e, method, x)
            src = method == "tradeBySourceAmount"
            failed = g == (0 if src else M128)
            if ex is None: ctx.check("refused", failed, f"{method}:undefined", f"{method} {x} -> {g} of {o}"); continue
            if src:
                ctx.check("rounding", g <= ex, "source:rounding", f"{x} buys {g}, exactly {float(ex)}: {o}")
                if dom: ctx.check("accuracy", ex - g <= 2 + ex * Fr(1, 10 ** 8), "source:accuracy", f"{x} buys {g}, exactly {float(ex)}: {o}")
            else:
                ctx.check("rounding", g >= ex or (failed and ex > M128), "target:rounding", f"{x} costs {g}, exactly {float(ex)}: {o}")
                if dom and ex < 2 ** 110: ctx.check("accuracy", g - ex <= 2 + ex * Fr(1, 10 ** 8), "target:accuracy", f"{x} costs {g}, exactly {float(ex)}: {o}")
            if last is not None and dom: ctx.check("monotone", g >= last[1] - 2 - last[1] // 10 ** 8, f"{method}:monotone", f"{last} then {x}: {g}")
            last = (x, g)
            got[(method, x)] = (g, failed)
            if not failed and g > 0 and x > 0:
                # there and back never gains
                if src and g <= y:
                    back = impl.tradeByTargetAmount(g, e)
                    if dom: ctx.check("roundtrip", back <= x + 2 + x // 10 ** 7 + (full or 0) // 10 ** 8, "source-target", f"{x} -> {g} -> {back}")
                elif not src:
                    back = impl.tradeBySourceAmount(g, e)
                    if dom and g < M128: ctx.check("roundtrip", back >= x - 2 - Fr(x, 10 ** 7) - Fr(3 * x, max(g, 1)), "target-source", f"{x} -> {g} -> {back}")
            # specification and implementation
            if dom and z > 1000 and M_ok(Ld, Hd, Md) and x > 0:
                with localcontext() as c:
                    c.prec = 100
                    s = spec.execute(method, str(x), o)
                    enc = D(2) ** -40 * (1 + 1 / Ld.sqrt()) + 4 / D(z)
                    rel = D("1e-8") + 8 * enc * (1 + (Hd / Ld).sqrt())
                    # cost close to the bottom of the range depends on the little that is left
                    if rel < D("0.01") and (src or x <= y * 0.999):
                        k = 1 if src else 1 / (1 - D(x) / y) if A else 1
                        ctx.check("spec-vs-impl", abs(g - s) <= 3 + rel * s * min(k, 2000), f"{method}:spec", f"{x}: {g}, specification {s} ({o}) rel {rel}")
    # overdrawn and negative amounts are refused
    over = impl.tradeByTargetAmount(int(y * (2 + Fr(2 * B, max(A, 1)) * Fr(z, y))) + 10, e) if A and y else M128
    ctx.check("refused", over == M128, "overdrawn", f"{over}")
    ctx.check("refused", impl.tradeByTargetAmount(-1, e) in (M128, 0) and impl.tradeBySourceAmount(-1, e) == 0, "negative", "")
    ctx.check("refused", impl.tradeBySourceAmount(2 ** 255, e) == 0 or not A, "huge", "")
    ctx.cover(lb, rb, w, wide, any(f for _, f in got.values()))
    ctx.run((str(o),), any(not f for _, f in got.values()))


def M_ok(L, H, M): return L == H or M > L + (H - L) * D("1e-4")


def specification(ctx):
    """the specification against the integral of the curve, and against the simulator"""
    rng = ctx.rng
    o, w, lb, rb = rand_order(rng)
    y = D(o["liquidity"]); L, H, M = (D(o[k]) for k in ("lowestRate", "highestRate", "marginalRate"))
    if not M_ok(L, H, M): M = H; o["marginalRate"] = o["highestRate"]
    ctx.log(o)
    with localcontext() as c:
        c.prec = 100
        ref = RefOrder.__new__(RefOrder)
        ref.B, ref.S, ref.y = L.sqrt(), H.sqrt() - L.sqrt(), y
        ref.yint = y * (H.sqrt() - L.sqrt()) / (M.sqrt() - L.sqrt()) if H != L else y
        for f in (D(1), D(repr(rng.random())), D("1e-9")):
            t = y * f
            s = spec.execute("tradeByTargetAmount", str(t), o)
            e = ref.dx_of_dy(t)
            ctx.check("spec", abs(s - e) <= e * D("1e-40"), "target", f"{t}: {s} expected {e}")
            b = spec.execute("tradeBySourceAmount", str(s), o)
            ctx.check("spec", abs(b - t) <= t * D("1e-40"), "inverse", f"{t} -> {s} -> {b}")
        enc = spec.encodeOrder(o); dec = spec.decodeOrder(enc)
        ctx.check("spec", set(dec) == set(o) and all(abs(dec[k] - D(o[k])) <= D(o[k]) * D("1e-90") for k in o), "decode", f"{dec}")
    # the simulator trades the same amounts
    if w >= 1e-6 or w == 0:
        x = spec.execute("tradeByTargetAmount", str(y * D(repr(rng.uniform(0.05, 0.95)))), o)
        sim = CarbonSimulatorUI(pair="ETH/USDC", verbose=False, raiseonerror=True)
        quiet(sim.add_strategy, "ETH", 0, None, None, y, H, L, pbuy_marginal=M if M != H else None, pair="ETH/USDC")
        r = quiet(sim.amm_buys, "ETH", x)
        got = D(repr(float(r["trades"].query("aggr==True")["amt1"].iloc[0])))
        e = spec.execute("tradeBySourceAmount", str(x), o)
        ctx.check("simulator", abs(got - e) <= e * D("1e-9"), "simulator", f"{x} ETH: simulator {got}, specification {e} for {o}")
    ctx.cover("spec", lb, rb, w); ctx.run(("spec", str(o)), True)


def numbers(ctx):
    rng = ctx.rng
    for _ in range(20):
        v = rng.choice([0, 1, 2 ** 48 - 1, 2 ** 48, 2 ** 48 + 1, rng.getrandbits(rng.randint(1, 120)), rng.getrandbits(48) << rng.randint(0, 80)])
        e = impl.encodeFloat(v); g = impl.decodeFloat(e)
        ctx.check("float", g <= v and v - g <= v >> 47, "lossy", f"{v} -> {g}")
        if v == 0 or (v >> ((v & -v).bit_length() - 1)).bit_length() <= 48: ctx.check("float", g == v, "exact", f"{v} -> {g}")
        ctx.check("float", impl.encodeFloat(g) == e or impl.decodeFloat(impl.encodeFloat(g)) == g, "again", "")
        ctx.check("float", impl.bitLength(v) == v.bit_length(), "bitLength", f"{v}")
        r = D(rng.getrandbits(rng.randint(1, 100))) / D(2 ** rng.randint(0, 60)); a = impl.encodeRate(r)
        with localcontext() as c:
            c.prec = 100
            s = r.sqrt() * ONE
            ctx.check("float", 0 <= s - a <= max(D(1), s / ONE * 2), "rate", f"{r}: {a} for {s}")
            if a < 2 ** 90: ctx.check("float", a == impl.decodeFloat(impl.encodeFloat(a)), "rate:representable", f"{a}")
            ctx.check("float", abs(impl.decodeRate(D(a)) - (D(a) / ONE) ** 2) < D("1e-30") * (1 + (D(a) / ONE) ** 2), "decodeRate", "")
        a, b, m = (rng.getrandbits(rng.choice([1, 64, 128, 255])) for _ in range(3)); m += 1
        for f, ex in ((impl.mulDivF, a * b // m), (impl.mulDivC, -(-a * b // m)), (lambda a, b, c: impl.add(a, b), a + b), (lambda a, b, c: impl.mul(a, b), a * b), (lambda a, b, c: impl.sub(a, b), a - b), (lambda a, b, c: impl.uint128(a), a if a <= M128 else -1)):
            try: g = f(a, b, m)
            except AssertionError: g = None
            ctx.check("float", g == (ex if 0 <= ex < 2 ** 256 else None), "arithmetic", f"{a} {b} {m}: {g} expected {ex}")
        v, q = D(rng.randint(1, 10 ** 6)), D(rng.randint(1, 1000)) / 100
        for bad, act in ((True, v + q), (True, v - q), (False, v)):
            for ea, er in ((q * D("1.01"), 0), (q * D("0.99"), 0), (0, q / v * D("1.01")), (0, q / v * D("0.99"))):
                try: assertAlmostEqual(act, v, ea, er); ok = True
                except AssertionError: ok = False
                ctx.check("compare", ok == (not bad or q <= ea or q / v <= er), "assertAlmostEqual", f"{act} {v} {ea} {er}")
    ctx.cover("numbers"); ctx.run(("num", rng.random()), True)


CASES = [("trade", trade, 3000, 150000), ("spec", specification, 250, 6000), ("numbers", numbers, 150, 4000)]
