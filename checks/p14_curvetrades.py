from math import sqrt
from vlib.simlib import *
from vlib.core import close
from carbon import CarbonOrderUI

PID = "P14"
RULE = ("random sequences of sales by source, by target and to a target price, liquidity additions, dry runs and impossible requests on single, "
        "linked and self-linked curves (either token, fixed-price to very wide, empty, part, full); after each step both curves are compared with a "
        "shadow ledger and the report with an independent curve; distinct by event list; non-trivial if a trade executed")
ASSUME = ["trades below 1e-10 are documented not to execute", "buying back (negative sales) is exercised on unlinked curves; linked curves refuse it"]
REQUIRED = ["amounts", "state", "linked", "dry", "refused", "tradeto", "expand", "no-loss"]
E = CarbonOrderUI
EPS = 1e-10


class Sh:
    """shadow of one curve"""
    def __init__(self, tkn, base, quote, pa, pb, y, yint):
        self.tkn, self.base, self.quote, self.pa, self.pb, self.y, self.yint = tkn, base, quote, pa, pb, y, yint

    def ref(self, y=None, yint=None):
        a, b = D(self.pa), D(self.pb)
        if self.tkn == self.base: a, b = 1 / a, 1 / b
        return RefOrder(0, None, self.tkn, self.base, self.quote, b, a, D(self.y if y is None else y), D(self.yint if yint is None else yint))


def snap(o):
    return (o.y, o.yint, o.B, o.S, o.tkn, o.id)


def mk(rng, base, quote, tkn, mid, empty_ok=True):
    above = tkn == base
    w = rng.choice([0, 1e-3, 0.05, 0.5, 5]) * rng.uniform(0.5, 1.5)
    g = rng.choice([0, 0.001, 0.1]) * rng.random()
    pa = mid * (1 + g) if above else mid / (1 + g)
    pb = pa * (1 + w) if above else pa / (1 + w)
    yint = r_sig(rng, 0.1, 1e5) * (1 if above else mid)
    y = yint * rng.choice([1, 1, rng.random(), 0 if empty_ok else 1])
    if rng.random() < 0.05: y = yint = 0
    s = Sh(tkn, base, quote, pa, pb, y, yint)
    o = E.from_prices(pair=f"{base}/{quote}", tkn=tkn, pa=pa, pb=pb, yint=yint, y=y, id=None)
    return o, s


def check_state(ctx, what, o, s, mon="state"):
    ctx.close(mon, o.y, s.y, "holdings:" + what, 1e-9, 1e-9 + 1e-12 * s.yint, f"{what}: holdings")
    ctx.close(mon, o.yint, s.yint, "capacity:" + what, 1e-9, 1e-12, f"{what}: capacity")


def report(ctx, what, r, o_tkn, s0, s1, dy, dx, executed, mid):
    """the report r of a trade which took curve s0 to s1"""
    ctx.check("amounts", r["executed"] == executed, "report-executed", f"{what}: executed={r['executed']}, expected {executed}")
    ctx.close("amounts", r["dy"], dy, "report-dy", 1e-9, 1e-9 + 1e-12 * s1.yint, f"{what}: dy")
    ctx.close("amounts", r["dx"], dx, "report-dx", 1e-8, 1e-9 * (1 if s1.tkn == s1.quote else mid) * max(1, 1e-3 * s1.yint), f"{what}: dx")
    ctx.close("amounts", r["y_old"], s0.y, "report-y_old", 1e-12, 1e-12); ctx.close("amounts", r["y"], s1.y, "report-y", 1e-9, 1e-9 + 1e-12 * s1.yint)
    ctx.close("amounts", r["y_int"], s1.yint, "report-yint", 1e-9, 1e-12)
    ctx.check("amounts", r["expanded"] == (s1.yint > s0.yint), "report-expanded", f"{what}: expanded={r['expanded']} {s0.yint}->{s1.yint}")
    other = s0.quote if s0.tkn == s0.base else s0.base
    ctx.check("amounts", r["tkny"] == s0.tkn and r["tknx"] == other, "report-tokens", f"{r['tkny']} {r['tknx']}")
    if s0.yint > 0:
        p0 = float(s0.ref().pmarg())
        ctx.close("amounts", r["pmarg_old"], p0 if s0.tkn == s0.quote else 1 / p0, "report-pmarg_old", 1e-7, 0, f"{what}: marginal price before")
    if s1.yint > 0 and s0.yint > 0:
        p1 = float(s1.ref().pmarg())
        ctx.close("amounts", r["pmarg"], p1 if s1.tkn == s1.quote else 1 / p1, "report-pmarg", 1e-7, 0, f"{what}: marginal price after")
    if abs(dy) > 1e-6 * s1.yint and abs(dy) > 1e-6:
        p = dy / dx if s0.tkn == s0.quote else dx / dy
        ctx.close("amounts", r["p"], p, "report-price", 1e-6, 0, f"{what}: price")
        ctx.close("amounts", r["dy/dx"], dy / dx, "report-rate", 1e-6, 0, f"{what}: dy/dx"); ctx.close("amounts", r["dx/dy"], dx / dy, "report-rate", 1e-6, 0, f"{what}: dx/dy")


def seq(ctx):
    rng = ctx.rng
    base, quote = rng.choice(PAIRS)
    mid = MID[(base, quote)]
    mode = rng.choice(["single", "linked", "linked", "linked", "self"])
    tkn = rng.choice([base, quote]); oth = quote if tkn == base else base
    a, sa = mk(rng, base, quote, tkn, mid)
    L = [(a, sa)]
    if mode == "linked":
        b, sb = mk(rng, base, quote, oth, mid)
        a.set_id(1); b.set_id(2)
        a.set_linked(b); b.set_linked(a)
        ctx.check("linked", a.lid == 2 and b.lid == 1, "lid")
        L.append((b, sb))
    if mode == "self":
        a.set_id(1); a.set_linked(a)
    ctx.log(mode, tkn, [(s.tkn, s.pa, s.pb, s.y, s.yint) for _, s in L])
    nex = 0
    wealth0 = None
    bought_back = False
    for _ in range(rng.randint(3, 12)):
        k = rng.randrange(len(L))
        o, s = L[k]
        lo, ls = L[1 - k] if mode == "linked" else (None, None)
        kind = rng.choice(["selly", "selly", "buyx", "buyx", "tradeto", "tradeto", "tradeto", "addliqy", "toobig", "neg"])
        execute = rng.random() < 0.7
        before = [snap(x) for x, _ in L]
        s0 = Sh(s.tkn, s.base, s.quote, s.pa, s.pb, s.y, s.yint)
        R = s.ref()
        what = f"{kind}{'' if execute else '(dry)'} on {s.tkn} y={s.y} yint={s.yint}"

        def unchanged(mon, mech):
            ctx.check(mon, [snap(x) for x, _ in L] == before, mech, f"{what} changed a curve: {before} -> {[snap(x) for x, _ in L]}")

        if kind == "addliqy":
            d = r_sig(rng, 1e-3, 1) * (s.yint or 1)
            if rng.random() < 0.15:
                try:
                    o.addliqy(-d); ok = False
                except ValueError:
                    ok = True
                ctx.check("refused", ok, "negative-liquidity", "negative liquidity accepted"); unchanged("refused", "refused-changed:addliqy")
                continue
            noexp = rng.random() < 0.3
            if noexp and s.yint > s.y and s.y + (s.yint - s.y) == s.yint and rng.random() < 0.3: d = s.yint - s.y      # exactly full
            if noexp and s.y + d > s.yint:
                try:
                    o.addliqy(d, expandcurve=False); ok = False
                except ValueError:
                    ok = True
                ctx.check("refused", ok, "overfull-accepted", "liquidity beyond capacity accepted"); unchanged("refused", "refused-changed:addliqy")
                continue
            r = o.addliqy(d, expandcurve=not noexp)
            s.y += d; s.yint = max(s.yint, s.y)
            ctx.check("expand", r["expanded"] == (s.yint > s0.yint), "addliqy-expanded", f"{r}")
            ctx.close("expand", r["y"], s.y, "addliqy-y", 1e-12, 0); ctx.close("expand", r["yint"], s.yint, "addliqy-yint", 1e-12, 0)
            ctx.close("expand", r["dy"], d, "addliqy-dy", 0, 0)
            p = float(s.ref().pmarg()); ctx.close("expand", r["pmarg"], p if s.tkn == s.quote else 1 / p, "addliqy-pmarg", 1e-9, 0)
        elif kind == "toobig":
            if s.yint == 0: continue
            d = s.y * 1.001 + rng.choice([1e-6, 1, 1000])
            roe = rng.random() < 0.5
            by = rng.choice(["selly", "buyx"])
            if by == "buyx" and (s.yint == 0 or s.y < 1e-6): by = "selly"
            amt = d
            if by == "buyx":
                amt = float(R.dx_of_dy(R.y)) * 1.01
                if s.pa != s.pb and float(R.dy_of_dx(D(amt))) < s.y + 1e-6: continue
                if float(R.dy_of_dx(D(amt))) < s.y + 1e-6: continue
            try:
                r = getattr(o, by)(amt, execute=execute, raiseonerror=roe); raised = False
            except ValueError:
                r = None; raised = True
            ctx.check("refused", r is None and raised == roe, "overdraw-accepted", f"{by}({amt}) with {s.y}: {r}")
            unchanged("refused", "refused-changed:" + by)
        elif kind == "neg":
            d = s.yint * rng.choice([0.01, 0.3, 2]) * rng.random()
            if d < 1e-6: continue
            room = s.yint - s.y
            if room > 1e-6 and rng.random() < 0.3: d = room + rng.choice([0, 5e-11, -5e-11, 2e-10, -2e-10])    # to the brim
            if mode != "single":
                if mode == "self": continue
                for kw in (dict(), dict(allowneg=False, raiseonerror=True)):
                    try:
                        o.selly(-d, execute=execute, expandcurve=True, **kw); ok = False
                    except ValueError:
                        ok = True
                    ctx.check("refused", ok, "negative-on-linked", "linked curve bought back its token"); unchanged("refused", "refused-changed:neg")
                continue
            ctx.check("refused", o.selly(-d, allowneg=False) is None, "negative-accepted", "allowneg=False"); unchanged("refused", "refused-changed:neg")
            big = s.y + d > s.yint
            if big:
                ctx.check("refused", o.selly(-d, execute=execute) is None, "beyond-capacity-accepted", what); unchanged("refused", "refused-changed:neg")
            r = o.selly(-d, execute=execute, expandcurve=True)
            s1 = Sh(s.tkn, s.base, s.quote, s.pa, s.pb, s.y + d, max(s.yint, s.y + d))
            dx = float(s.ref(yint=s1.yint).dx_of_dy(D(-d)))
            report(ctx, what, r, s.tkn, s0, s1, -d, dx, execute, mid)
            if execute:
                s.y, s.yint = s1.y, s1.yint; bought_back = True
            else:
                unchanged("dry", "dry-changed:neg")
        else:
            if kind == "selly":
                if s.yint == 0: continue             # documented: only tradeto copes with a curve without capacity
                dy = s.y * rng.choice([1, rng.random(), rng.random(), 1e-3])
                if rng.random() < 0.1 and 1e-6 < s.y < 1e4: dy = s.y + rng.choice([5e-11, 9e-11, -5e-11])      # to the last drop
                if rng.random() < 0.1 and 1e-6 < s.y < 1e6: dy = rng.choice([2e-9, 5e-8])                        # hardly anything
                call = lambda ex: o.selly(dy, execute=ex)
            elif kind == "buyx":
                if s.yint == 0: continue
                dx = float(R.dx_of_dy(D(s.y * rng.choice([rng.random(), rng.random(), 1e-3, 0.999]))))
                dy = float(R.dy_of_dx(D(dx)))
                call = lambda ex: o.buyx(dx, execute=ex)
            else:
                f = rng.choice([rng.uniform(-0.3, 1.3), rng.random(), rng.random()])
                p = s.pa * (s.pb / s.pa) ** f if s.pa != s.pb else s.pa * rng.choice([0.9, 1.1])
                raw = D(p) if s.tkn == s.quote else 1 / D(p)
                if raw < R.pl: dy = s.y
                elif s.yint == 0 or raw >= R.pmarg(): dy = 0
                else: dy = float(R.dy_to_price(raw.sqrt()))
                call = lambda ex: o.tradeto(p, execute=ex)
                what += f" p={p} in [{s.pa},{s.pb}]"
            if 0 < abs(dy) < 10 * EPS: continue          # around the documented threshold below which nothing executes
            tiny = abs(dy) < EPS
            yint_b = o.yint
            r = call(execute)
            dx = float(R.dx_of_dy(D(dy))) if s.yint > 0 else 0.0
            s1 = Sh(s.tkn, s.base, s.quote, s.pa, s.pb, s.y - dy, s.yint)
            ctx.log(what, r["dy"], r["dx"])
            report(ctx, what, r, s.tkn, s0, s1, dy, dx, execute and not tiny, mid)
            ctx.cover(kind, "exec" if execute else "dry", mode, "fixed" if s.pa == s.pb else "range", "none" if tiny else "drain" if dy >= s.y * (1 - 1e-12) else "part")
            if execute and not tiny:
                nex += 1
                if dy >= s.y and kind == "selly": ctx.check("state", o.y == 0 or s.yint < o.y + 1e-9 and mode == "self", "not-drained", f"{what}: {o.y} left of {s.y}")
                s.y = max(s.y - dy, 0.0)
                if ls is not None:
                    ls.y += dx; ls.yint = max(ls.yint, ls.y)
                    ctx.check("linked", r["linked"] is not None, "linked-report", "no report for the linked curve")
                    ctx.close("linked", r["linked"]["dy"], dx, "linked-credit", 1e-8, 1e-9, f"{what}: linked curve credited")
                    ctx.close("linked", r["linked"]["y"], ls.y, "linked-credit", 1e-8, 1e-9)
                else:
                    ctx.check("linked", r["linked"] is None, "self-credit", f"{what}: {r['linked']}")
                if kind == "tradeto" and s.pa != s.pb and s.y > 0:
                    m = o.p_marg
                    ctx.close("tradeto", m, p, "tradeto-misses-target", 1e-7 + 1e-9 / abs(s.pb / s.pa - 1), 0, f"{what}: marginal price after")
            else:
                if not (kind == "tradeto" and before[k][1] == 0 and execute):
                    unchanged("dry", "dry-changed:" + kind)
                if not execute and not tiny and rng.random() < 0.5:
                    r2 = call(True)
                    for key in ("dy", "dx", "y", "y_int", "p", "pmarg", "x"):
                        ctx.check("dry", r[key] == r2[key], "quote-differs:" + key, f"{what}: {key} quoted {r[key]}, executed {r2[key]}")
                    nex += 1
                    s.y = max(s.y - dy, 0.0)
                    if ls is not None:
                        ls.y += dx; ls.yint = max(ls.yint, ls.y)
            if kind == "tradeto":
                ctx.ev("tradeto")
        for j, (x, sh) in enumerate(L):
            if sh.yint == 0 and x.yint == 1e-50:
                continue
            check_state(ctx, what, x, sh)
            ctx.check("state", 0 <= x.y <= x.yint, "y-outside-capacity", f"{x}")
        # resync the shadow so rounding does not accumulate
        for x, sh in L:
            sh.y, sh.yint = max(x.y, 0.0), x.yint if x.yint != 1e-50 else 0.0
            if sh.y > sh.yint: sh.y = sh.yint
    ctx.run(ctx.trail, nex > 0)
    ctx.sample(ctx.trail[:5])


def arbitraged(ctx):
    """a linked pair of curves follows random prices: nothing is lost, no gap can be exploited"""
    rng = ctx.rng
    base, quote = rng.choice(PAIRS); mid = MID[(base, quote)]
    a, sa = mk(rng, base, quote, base, mid); b, sb = mk(rng, base, quote, quote, mid)
    if min(sa.yint, sb.yint) == 0: ctx.skip("empty")
    a.set_linked(b); b.set_linked(a)
    lo, hi = sb.pa, sa.pa            # everything is bought below lo, sold above hi
    v0 = a.y * mid + b.y
    v = v0
    n = 0
    p = mid
    for _ in range(rng.randint(3, 25)):
        p = p * (1 + rng.uniform(-0.3, 0.3))
        ya, yb = a.y, b.y
        for o in rng.sample([a, b], 2):
            o.tradeto(p)
        if (a.y, b.y) != (ya, yb):
            n += 1
        w = a.y * mid + b.y
        ctx.check("no-loss", w >= v - 1e-9 * v - 1e-9, "value-lost", f"value at {mid} fell from {v} to {w} at spot {p}, though all buys are below and all sells above it")
        # a second visit of the same price does nothing
        y1 = (a.y, b.y)
        for o in (a, b): o.tradeto(p)
        ctx.check("no-loss", close(a.y, y1[0], 1e-7, 1e-7 * sa.yint) and close(b.y, y1[1], 1e-7, 1e-7 * sb.yint), "tradeto-not-idempotent", f"{y1} -> {(a.y, b.y)}")
        v = w
    ctx.run((sa.pa, sa.pb, sb.pa, sb.pb, p), n > 0)


def d_disabled(ctx):
    """a disabled curve has no price and does not trade"""
    for t in ("ETH", "USDC"):
        o = E.from_BSy("ETH/USDC", t, 0, 0, 0, 0)
        ctx.check("refused", o.disabled and o.p_marg is None and o.p_eff_f(0) is None and o.liquidity_approx(1, 1e9) == 0, "disabled", f"{o}")
        ctx.check("refused", o.dyfromdx_f(1) == 0 and o.dxfromdy_f(0) == 0 and o.dyfromp_f(1000) == 0, "disabled-trades", f"{o}")
        for f in (lambda: o.tradeto(1000), lambda: o.dxfromdy_f(0, raiseonerror=True), lambda: o.dyfromdx_f(0, raiseonerror=True)):
            try:
                f(); ok = False
            except ValueError: ok = True
            ctx.check("refused", ok, "disabled-raise")
        ctx.run(t)


DIRECTED = [("disabled", d_disabled)]
CASES = [("seq", seq, 2500, 60000), ("arbitraged", arbitraged, 800, 20000)]
