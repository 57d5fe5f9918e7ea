"""integer order matching of the contract SDK (benchmark/core/match/impl.py)"""
import sys, math
from fractions import Fraction as Fr
from decimal import Decimal as D, localcontext
from vlib.core import REPO
from vlib.simlib import RefOrder, optimal
from checks.p27_contract import impl, num, exact, ONE, M128
from core.match import impl as match
from vlib import match_shipped

PID = "P28"
RULE = ("books of 1 to 12 orders (equal, tied, narrow, wide, flat, overlapping and disjoint ranges, partly used, dust and deep) with amounts from 1 unit to more than the book "
        "holds, by source and by target, with all types and filters; distinct by book and amount; non-trivial if at least two orders are used")
ASSUME = ["a violation by best matching is the known finding if and only if the result is exactly that of the shipped algorithm (vlib/match_shipped.py)", "amounts up to 2^90 units, rates between 2^-30 and 2^30", "optimality up to 1e-9 and the rounding of one unit per order"]
REQUIRED = ["fills", "total", "bounds", "best", "fast", "types", "filter", "untouched", "rates"]


def book(rng):
    n = rng.choice([1, 2, 2, 3, 5, 8, 12])
    lb = rng.choice([8, 20, 40, 64, 88]); rb = rng.choice([1, 4, 16, 28])
    mid = Fr(2) ** rng.randint(-rb, rb)
    spread = rng.choice([0, 1e-12, 1e-6, 0.01, 0.5, 3])
    os = []
    for i in range(n):
        if os and rng.random() < 0.15: os.append(dict(rng.choice(os))); continue
        if os and rng.random() < 0.15:
            o = dict(rng.choice(os)); o["liquidity"] = str(rng.randrange(1, 2 ** lb)); os.append(o); continue
        L = mid * Fr(math.exp(rng.gauss(0, 1) * spread)); w = rng.choice([0, 0, 1e-10, 1e-6, 1e-3, .1, 2])
        H = L * (1 + Fr(w * rng.uniform(0.1, 1))); M = L + (H - L) * Fr(rng.choice([1, 1, rng.random(), 1e-3 + rng.random() * .1]))
        if rng.random() < 0.3: L, H, M = (Fr(round(v * 8) or 1, 8) for v in (L, H, H))
        if H < L: L = H
        os.append(dict(liquidity=str(rng.randrange(1, 2 ** rng.randint(1, lb))), lowestRate=num(L), highestRate=num(H), marginalRate=num(M)))
    return os


def ok(e):
    A, B = impl.decodeFloat(e["A"]), impl.decodeFloat(e["B"])
    return e["z"] > 0 and (A or B) and B > 0


def ref(i, e):
    o = RefOrder.__new__(RefOrder)
    o.id = i
    with localcontext() as c:
        c.prec = 80
        o.B, o.S = D(impl.decodeFloat(e["B"])) / ONE, D(impl.decodeFloat(e["A"])) / ONE
    o.y, o.yint = D(e["y"]), D(e["z"])
    return o


def case(ctx):
    rng = ctx.rng
    os = book(rng)
    try: es = {i: impl.encodeOrder(o) for i, o in enumerate(os)}
    except ZeroDivisionError: ctx.skip("bottom")
    if not all(ok(e) for e in es.values()): ctx.skip("zero rate")
    src = rng.random() < 0.5
    name, one = ("matchBySourceAmount", "tradeBySourceAmount") if src else ("matchByTargetAmount", "tradeByTargetAmount")
    capy = sum(e["y"] for e in es.values())
    capx = sum(impl.tradeByTargetAmount(e["y"], e) for e in es.values())
    cap = capx if src else capy
    am = rng.choice([cap, cap + 1, cap * 2 + 5, max(1, cap // 2), max(1, int(cap * rng.random() ** 3)), rng.randint(1, 5), max(1, cap - rng.randint(0, 5)), 1])
    if rng.random() < 0.1: am = es[rng.choice(list(es))]["y"]
    ctx.log(name, am, *os)
    keep = [dict(o) for o in os]
    known = match_shipped.best(name, am, es, lambda r: r.input > 0 and r.output > 0, (impl.tradeBySourceAmount, impl.tradeByTargetAmount, impl.decodeFloat))
    late = []                                      # verdicts on best matching; judged last, so that a known finding hides nothing else
    def chk(mon, ok, mech, msg=""):
        if mech.startswith(match.Best.lower()) or mech.startswith(match.Best): ctx.ev(mon); ok or late.append((mech, msg))
        else: ctx.check(mon, ok, mech, msg)
    try: got = match.execute(name, str(am), os)
    except Exception as e:
        if type(e).__name__ != known: raise
        got = match.execute(name, str(am), os, types=[match.Fast]); got[match.Best] = []
        late.append(("best:crash", f"{type(e).__name__}: {e}"))
    ctx.check("untouched", os == keep, "orders-changed", "")
    shipped = known == [(a.id, a.input, a.output) for a in got[match.Best]] or not isinstance(known, list) and bool(late)
    ctx.check("types", set(got) == {match.Fast, match.Best}, "types", f"{set(got)}")
    n = len(os)
    refs = [ref(i, e) for i, e in es.items()]
    with localcontext() as c:
        c.prec = 80
        opt, oy, ox, _ = optimal(refs, D(am), not src)
    rmax = max(float(r.pmarg()) for r in refs); rmin = min(float(r.pmarg(D(0))) for r in refs)
    unit_y, unit_x = 3 + 2 * rmax, 3 + 2 / rmin          # what one unit of the other token is worth
    tot = {}
    for ty, acts in got.items():
        chk("fills", isinstance(acts, list) and len({a.id for a in acts}) == len(acts) and all(a.id in es for a in acts), f"{ty}:ids", f"{[a.id for a in acts]}")
        for a in acts:
            e = es[a.id]
            chk("fills", a.input > 0 and a.output > 0, f"{ty}:empty", f"{a.input} {a.output}")
            chk("fills", getattr(impl, one)(a.input, e) == a.output, f"{ty}:amounts", f"order {a.id}: {a.input} -> {a.output}, the order trades {getattr(impl, one)(a.input, e)}")
            ex = exact(e, one, a.input)
            chk("fills", (a.output <= ex) if src else (a.output >= ex), f"{ty}:rounding", "")
            chk("bounds", (a.output if src else a.input) <= e["y"], f"{ty}:overdrawn", f"order {a.id}: {a.input} -> {a.output} holds {e['y']}")
        ti, to = sum(a.input for a in acts), sum(a.output for a in acts)
        tot[ty] = (ti, to)
        chk("total", ti <= am, f"{ty}:too-much", f"{ti} of {am} requested")
        # what is left over is less than what can still be traded in whole units
        slack = n * unit_x if src else (2 + n)
        if src: slack += float(ti) * 1e-9
        # what a unit of output costs at the bottom of the range may be much
        chk("total", ti >= min(am, cap) - slack, f"{ty}:too-little", f"{ti} of {am} requested, {cap} available")
    (bi, bo), (fi, fo) = tot[match.Best], tot[match.Fast]
    if src:
        # per unit of input
        e1 = n * unit_y + float(oy) * 1e-9 + (max(0, am - bi) if bi < am else 0) * rmax
        chk("best", bo >= float(oy) - e1, "best:optimal", f"{bo} is less than the optimum {oy} for {bi} (asked {am})")
        chk("best", bo >= fo - n * unit_y - fo * 1e-9 - max(0, fi - bi) * rmax, "best:fast", f"best {bo} for {bi}, fast {fo} for {fi}")
        for ty, v in (("best", bo), ("fast", fo)): chk("best", v <= float(oy) * (1 + 1e-9) + 1, ty + ":impossible", f"{v} {oy}")
    else:
        e1 = n * unit_x + float(ox) * 1e-9
        chk("best", bo <= float(ox) + e1, "best:optimal", f"costs {bo}, the optimum is {ox} for {bi} (asked {am})")
        if bi == fi: chk("best", bo <= fo + n * unit_x + fo * 1e-9, "best:fast", f"best {bo} for {bi}, fast {fo} for {fi}")
        if bi == am: chk("best", bo >= float(ox) * (1 - 1e-9) - 1, "best:impossible", f"{bo} {ox}")
    # fast: a reference greedy
    fm = {a.id: (a.input, a.output) for a in got[match.Fast]}
    seq = [a.id for a in got[match.Fast]]
    rates = {}
    for i, e in es.items():
        if src:
            x, y = am, impl.tradeBySourceAmount(am, e)
            if y > e["y"]:
                x = impl.tradeByTargetAmount(e["y"], e)
                while impl.tradeBySourceAmount(x, e) > e["y"]: x -= 1
                y = impl.tradeBySourceAmount(x, e)
        else: x = min(am, e["y"]); y = impl.tradeByTargetAmount(x, e)
        r = (match.rateBySourceAmount if src else match.rateByTargetAmount)(am, e)
        ctx.check("rates", (r.input, r.output) == (x, y), "rate", f"{(r.input, r.output)} expected {(x, y)}")
        rates[i] = (x, y)
    val = lambda i: (Fr(rates[i][1], rates[i][0]) if src else -Fr(rates[i][1], rates[i][0])) if rates[i][0] else Fr(0)
    for a, b in zip(seq, seq[1:]):
        ctx.check("fast", val(a) >= val(b), "fast:order", f"order {a} before {b}: {rates[a]} {rates[b]}")
    for k, i in enumerate(seq):
        if k < len(seq) - 1: ctx.check("fast", fm[i] == rates[i], "fast:exhaust", f"order {i} trades {fm[i]} of {rates[i]}")
    if seq and all(x > 0 and y > 0 for x, y in rates.values()):
        worst = min(val(i) for i in seq)
        for i in es:
            if i not in fm: ctx.check("fast", val(i) <= worst, "fast:skipped", f"order {i} {rates[i]} is better than those used")
    # types and filters
    for ty in (match.Fast, match.Best) if not late or late[0][0] != "best:crash" else (match.Fast,):
        g = match.execute(name, am, os, types=[ty])
        o = match.Best if ty == match.Fast else match.Fast
        ctx.check("types", g[o] is None and [(a.id, a.input, a.output) for a in g[ty]] == [(a.id, a.input, a.output) for a in got[ty]], "one-type", "")
    thr = rng.randint(1, max(1, int(cap)))
    g = match.execute(name, am, os, filter=lambda r: r.input >= thr and r.output > 0) if not late or late[0][0] != "best:crash" else {match.Best: [], match.Fast: []}
    for ty in g:
        ctx.check("filter", all(a.input >= thr for a in g[ty]), "filter", "")
    ctx.check("filter", [(a.id, a.input, a.output) for a in g[match.Best]] == [(a.id, a.input, a.output) for a in got[match.Best] if a.input >= thr], "filter:best", "")
    ctx.cover(name, n, len(seq), len(got[match.Best]), am >= cap)
    ctx.run((name, am, str(os)), len(got[match.Best]) > 1)
    for mech, msg in late: ctx.fail("best-matching-as-shipped" if shipped else mech, msg + (" (exactly what the shipped algorithm does)" if shipped else ""))


def empty(ctx):
    """nothing to match: no actions"""
    o = dict(liquidity="1000", lowestRate="1", highestRate="2", marginalRate="2")
    for name in ("matchBySourceAmount", "matchByTargetAmount"):
        g = match.execute(name, "100", [], types=[match.Fast])
        ctx.check("fills", g == {match.Fast: [], match.Best: None}, "empty-book", f"{g}")
        g = match.execute(name, "0", [o, o])
        ctx.check("fills", g == {match.Fast: [], match.Best: []}, "nothing", f"{g}")
    ctx.cover("empty"); ctx.run(("empty",), False)


def emptybest(ctx):
    """best matching of an empty book"""
    for name in ("matchBySourceAmount", "matchByTargetAmount"):
        try: g = match.execute(name, "100", [])
        except UnboundLocalError as e: ctx.fail("best-matching-as-shipped", f"empty book: {e}")
        ctx.check("fills", g == {match.Fast: [], match.Best: []}, "empty-book", f"{g}")
    ctx.cover("empty"); ctx.run(("emptybest",), False)


DIRECTED = [("empty", empty), ("emptybest", emptybest)]
CASES = [("books", case, 800, 40000)]
