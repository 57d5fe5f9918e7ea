from decimal import Decimal as D
from vlib.simlib import *

PID = "P08"
RULE = ("uncrossed books (all sells above, all buys below a reference price) attacked by random trade sequences of a single trader: the "
        "trader's wealth at the reference price must never grow; one-directional trades split in k random parts must add up to the unsplit "
        "trade; larger trades never get a better average price; distinct by event list; non-trivial if both directions were traded, resp. if k>1")
ASSUME = ["exact matching for splitting and monotonicity", "tolerance 1e-8 relative plus 12-decimals rounding per fill"]
REQUIRED = ["no-profit", "split", "monotone", "state-split"]


def uncrossed(ctx, w, n, mid):
    rng = ctx.rng
    for _ in range(n):
        s0 = mid * (1 + rng.choice([0, 0.001, 0.02, 0.2]) * rng.random()); s1 = s0 * (1 + rng.choice([0, 0.01, 0.3, 2]) * rng.random())
        b0 = mid / (1 + rng.choice([0, 0.001, 0.02, 0.2]) * rng.random()); b1 = b0 / (1 + rng.choice([0, 0.01, 0.3, 2]) * rng.random())
        a, b = r_amt(rng, 0.1, 500), r_amt(rng, 0.1 * mid, 500 * mid)
        yis = a * rng.uniform(1, 3) if rng.random() < 0.3 and s0 != s1 else None
        yib = b * rng.uniform(1, 3) if rng.random() < 0.3 and b0 != b1 else None
        if rng.random() < 0.2: b = 0; yib = None
        if rng.random() < 0.5:
            w.add_strategy("ETH", a, s0, s1, b, b0, b1, "ETH", "USDC", yis=yis, yib=yib)
        else:
            w.add_strategy("USDC", b, b0, b1, a, s0, s1, "ETH", "USDC", yis=yib, yib=yis)


def attack(mm):
    def run(ctx):
        rng = ctx.rng
        w = World(ctx, mm, pair="ETH/USDC")
        mid = float("%.3g" % r_sig(rng, 0.01, 50000))
        uncrossed(ctx, w, crowd(rng, 1, 4), mid)
        eth = usdc = D(0)
        dirs = set()
        vol = D(0)
        last = None
        for _ in range(rng.randint(3, 8)):
            # often try to undo the previous trade
            tr = None
            if last and rng.random() < 0.5:
                out, inn, amt = last[1], last[0], last[2]
                os_ = w.eligible(out, "ETH", "USDC")
                if os_ and float(sum(o.dx_of_dy(o.y) for o in os_)) > amt * 1.001:
                    tr = dict(by_target=False, tkn=inn, amt=amt, base="ETH", quote="USDC", out=out, inn=inn)
            tr = tr or random_trade(ctx, w, [("ETH", "USDC")])
            if not tr: continue
            kw = dict(threshold_orders=rng.choice([2, 100])) if mm == "alpha" else {}
            r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], "ETH", "USDC", **kw)
            if not r["success"]: ctx.skip("refused")
            a = w.routes(r)[1][0]
            got, paid = D(a["amt1"]), D(a["amt2"])
            if a["tkn1"] == "ETH": eth += got; usdc -= paid
            else: usdc += got; eth -= paid
            vol += (got if a["tkn1"] == "USDC" else paid)
            last = (tr["out"], tr["inn"], float("%.12g" % a["amt1"]))
            dirs.add(tr["out"])
            wealth = float(usdc + eth * D(mid))
            ctx.check("no-profit", wealth <= 1e-8 * float(vol) + 1e-9 * (1 + mid), "trader-profits",
                      f"after {len(w.ctx.trail)} events the trader is up {wealth} USDC at {mid} (volume {vol})")
            # what the trader lost is in the book
            w.apply(r); w.compare("no-profit", "book"); w.sync()
        ctx.cover(mm, "dirs%d" % len(dirs))
        ctx.run(ctx.trail, len(dirs) == 2)
        ctx.sample(ctx.trail[:8])
    return run


def twin_books(ctx, n, mm="exact"):
    """two simulators holding the same random book"""
    state = ctx.rng.getstate()
    W = []
    for _ in range(2):
        ctx.rng.setstate(state)
        w = World(ctx, mm)
        pairs = [ctx.rng.choice(PAIRS[:3])]
        for _ in range(n):
            w.random_strategy(pairs=pairs)
        W.append(w)
    return W, pairs


def split(ctx):
    rng = ctx.rng
    (w1, w2), pairs = twin_books(ctx, crowd(rng, 1, 4))
    tr = random_trade(ctx, w1, pairs)
    if not tr: ctx.skip()
    bt = tr["by_target"]
    r = w1.trade(bt, tr["tkn"], tr["amt"], tr["base"], tr["quote"])
    if not r["success"]: ctx.skip("refused")
    A = w1.routes(r)[1][0]
    k = rng.choice([2, 2, 3, 4])
    cuts = sorted(rng.random() for _ in range(k - 1))
    parts, rest = [], D(str(tr["amt"]))
    for c0, c1 in zip([0] + cuts, cuts + [1]):
        parts.append(D("%.10g" % (tr["amt"] * (c1 - c0))))
    parts[-1] = rest - sum(parts[:-1])
    if min(parts) < D("1e-4"): ctx.skip()
    out = inn = D(0)
    legs = 0
    rates = []
    for p in parts:
        r = w2.trade(bt, tr["tkn"], p, tr["base"], tr["quote"])
        if not r["success"]: ctx.fail("split-refused", f"part {p} of an accepted trade refused: {r['error']}")
        a = w2.routes(r)[1][0]
        legs += a["nroutes"]
        out += D(a["amt1"]); inn += D(a["amt2"])
        if min(a["amt1"], a["amt2"]) > 1e-2: rates.append(a["amt1"] / a["amt2"])
        w2.apply(r)
    rlo = min(float(o.pl) for o in w1.model.values() if o.tkn == tr["out"] and not o.disabled)
    rhi = max(float(o.ph) for o in w1.model.values() if o.tkn == tr["out"] and not o.disabled)
    ctx.close("split", out, A["amt1"], "split-out", 1e-8, 1e-11 * legs * (1 + rhi), f"received in {k} parts vs at once")
    ctx.close("split", inn, A["amt2"], "split-in", 1e-8, 1e-11 * legs * (1 + 1 / rlo), f"paid in {k} parts vs at once")
    for a, b in zip(rates, rates[1:]):
        ctx.check("monotone", b <= a * (1 + 1e-6), "later-part-cheaper", f"rates of consecutive parts {rates}")
    for i in w1.sim.orders:
        y1, y2, c = w1.sim.orders[i].y, w2.sim.orders[i].y, float(w1.sim.orders[i].y_int)
        # fixed-price orders at one price are interchangeable
        flat = any(o.tkn == w1.model[i].tkn and not o.disabled and float(o.S / o.B) < 1e-6 for o in w1.model.values())
        if not flat:
            ctx.close("state-split", y1, y2, "split-state", 1e-7, 1e-8 * (1 + c), f"holdings of order {i} at once vs in parts")
    ctx.cover("split", "t" if bt else "s", k)
    ctx.run(ctx.trail)


def monotone(ctx):
    """quotes of increasing size against an unchanged book"""
    rng = ctx.rng
    w = World(ctx, "exact")
    pairs = [rng.choice(PAIRS[:3])]
    for _ in range(rng.randint(1, 5)):
        w.random_strategy(pairs=pairs)
    tr = random_trade(ctx, w, pairs, frac=0.9)
    if not tr: ctx.skip()
    prev = None
    for f in (0.05, 0.2, 0.45, 0.46, 0.8, 1):
        amt = float("%.6g" % (tr["amt"] * f))
        if amt < 1e-2: continue
        r = w.trade(tr["by_target"], tr["tkn"], amt, tr["base"], tr["quote"], execute=False)
        if not r["success"]: ctx.skip("refused")
        a = w.routes(r)[1][0]
        if min(a["amt1"], a["amt2"]) < 1e-2: continue
        rate = a["amt1"] / a["amt2"]
        if prev:
            ctx.check("monotone", rate <= prev[2] * (1 + 1e-9), "bigger-trade-better-price", f"{prev} then {(a['amt1'], a['amt2'], rate)}")
            ctx.check("monotone", a["amt1"] >= prev[0] * (1 - 1e-12) and a["amt2"] >= prev[1] * (1 - 1e-12), "more-in-less-out", f"{prev} then {a['amt1']},{a['amt2']}")
        prev = (a["amt1"], a["amt2"], rate)
    ctx.run(ctx.trail, prev is not None)


DIRECTED = []
CASES = [("attack_exact", attack("exact"), 70, 1000), ("attack_fast", attack("fast"), 35, 500), ("attack_alpha", attack("alpha"), 30, 400),
         ("split", split, 60, 800), ("monotone", monotone, 50, 600)]
