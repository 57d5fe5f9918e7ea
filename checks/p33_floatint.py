"""integers stored as significand and exponent (carbon/helpers/floatint.py)"""
import math
from fractions import Fraction as Fr
from vlib.cpclib import sig
from carbon.helpers import floatint as fi

PID = "P33"
RULE = "whole numbers around every power of two up to beyond the maximum, and random ones of every length; floats over the whole range of each of the provided scales and of new ones; distinct by number and scale; non-trivial if bits are dropped"
ASSUME = ["floats of doubles up to 1e300"]
REQUIRED = ["bits", "truncate", "exact", "order", "limits", "refused", "float", "views"]
KINDS = [fi.CarbonFloatInt32, fi.CarbonFloatInt40, fi.CarbonFloatInt48, fi.CarbonFloatInt60, fi.CarbonFloatInt64, fi.CarbonFloatInt128]
SCALE = dict(zip(KINDS, (32, 40, 48, 60, 64, 128)))


def refused(f):
    try: f()
    except AssertionError: return True
    return False


def numbers(ctx):
    rng = ctx.rng
    C = rng.choice(KINDS); BS, BE, one = 40, 8, SCALE[C]
    if rng.random() < 0.3:
        BS, BE, one = rng.choice([8, 24, 53, 64]), rng.choice([4, 6, 8]), rng.choice([16, 64, 96])
        C = type("C", (C,), dict(BITS_SIGNIFICANT=BS, BITS_EXPONENT=BE, ONE_EXPONENT=one))
    top = BS + 2 ** BE - 1                      # bits of the largest number
    last = None
    ns = []
    for _ in range(25):
        k = rng.randint(0, top + 2)
        ns.append(max(0, rng.choice([(1 << k) + rng.choice([-2, -1, 0, 1, 2]), rng.getrandbits(k) if k else 0, (1 << k) - (1 << max(k - BS, 0)) + rng.choice([-1, 0, 1])])))
    for n in sorted(ns):
        L = n.bit_length()
        ctx.check("bits", n == 0 or C.bindig(n) == L, "bindig", f"{n}: {C.bindig(n) if n else 0}")
        if L > top:
            ctx.check("refused", refused(lambda: C.from_int(n)), "toobig", f"{n} needs {L} bits of {top}"); continue
        r = C.from_int(n)
        cut = max(L - BS, 0)
        ctx.check("bits", 0 <= r.significant < 2 ** BS and 0 <= r.exponent < 2 ** BE and type(r) is C, "width", f"{n}: {r}")
        ctx.check("truncate", r.asint == (n >> cut) << cut == int(r), "value", f"{n}: {r} = {r.asint}")
        if not cut: ctx.check("exact", r.asint == n and r.exponent == 0, "small", f"{n}: {r}")
        else: ctx.check("truncate", r.significant >= 2 ** (BS - 1), "precision", f"{n}: {r} keeps fewer than {BS} bits")
        ctx.check("exact", C.from_int(r.asint) == r, "again", f"{n}: {r} {C.from_int(r.asint)}")
        if last: ctx.check("order", last.asint <= r.asint, "order", f"{last} {r}")
        last = r
        f = Fr(r.asint, 2 ** one)
        if f < Fr(10) ** 300:
            ctx.check("views", r.asfloat == float(f) == float(r), "float", f"{r.asfloat} {float(f)}")
        ctx.check("views", r.one == 2 ** one and r.asint1 == (r.asint, r.one) and r.ashex == hex(r.asint) and int(r.ashex, 16) == r.asint and r.astuple == (r.significant, r.exponent) and r.astuple1 == (r.significant, r.exponent, one)
                  and r.asdict == dict(significant=r.significant, exponent=r.exponent) and r.asdict1 == dict(significant=r.significant, exponent=r.exponent, one_exponent=one) and C(**r.asdict) == r and C(*r.astuple) == r, "views", f"{r}")
        ctx.run((n, BS, BE, one), cut > 0)
    k = rng.choice([0, 1, 2, 3])
    mx, mn = C.max(k), C.min(k)
    ctx.check("limits", mx.asint == (2 ** BS - 1 - k) << (2 ** BE - 1) and mn.asint == 1 + k and C.from_int(mx.asint) == mx and C.from_int(mn.asint) == mn, "limits", f"{mx} {mn}")
    ctx.check("limits", C.from_int(mx.asint + 1) in (mx, C.max(k - 1) if k else mx), "next", "")
    for bad in (-1, 1.5, "1"): ctx.check("refused", refused(lambda: C.from_int(bad)), "input", f"{bad!r}")
    ctx.check("refused", refused(lambda: C(1, -1)) and refused(lambda: C(1.5, 1)) and refused(lambda: C(1, 1.5)), "fields", "")
    ctx.cover("numbers", BS, BE, one)


def floats(ctx):
    rng = ctx.rng
    C = rng.choice(KINDS); one = SCALE[C]
    for _ in range(25):
        x = rng.choice([0., sig(rng, 2. ** -one, 1e9), sig(rng, 1e-10, 1e40), math.ldexp(1, rng.randint(-one, 150)), math.ldexp(1, rng.randint(-one + 2, 150)) * (1 - 2 ** -53)])
        n = int(Fr(x) * 2 ** one)
        if n.bit_length() > 295: continue
        r = C.from_float(x); L = n.bit_length(); cut = max(L - 40, 0)
        ctx.check("float", r.asint == (n >> cut) << cut, "value", f"{x}: {r}")
        ctx.check("float", r.asfloat <= x and x - r.asfloat <= x * 2. ** -39 + 2. ** -one, "accuracy", f"{x}: {r.asfloat}")
        ctx.check("float", C.from_float(r.asfloat).asint == r.asint, "again", f"{x}")
        ctx.run((x, one), cut > 0)
    ctx.check("refused", refused(lambda: C.from_float(-sig(rng, 1, 100))), "negative", "")
    ctx.cover("floats", one)


CASES = [("numbers", numbers, 300, 20000), ("floats", floats, 200, 10000)]
