from decimal import Decimal as D
from vlib.simlib import *

PID = "P10"
RULE = ("pairs of simulators fed the same economic history in different clothes (reversed pair with inverted prices, strategy described from "
        "the other token, trader/AMM verbs, negative amounts, default vs explicit pair, lower-case pair, number types, order of creation) must "
        "hold the same amounts and report the same fills throughout; distinct by event list; non-trivial if a trade was mirrored")
ASSUME = ["1e-8 relative tolerance: prices are inverted in floating point"]
REQUIRED = ["holdings", "fills", "prices"]


def make_book(ctx, rng, n, mid):
    """list of strategies in canonical form: sells ETH in [s0,s1] (USDC per ETH), buys in [b0,b1]"""
    L = []
    for _ in range(n):
        s0, s1 = r_range(rng, mid, True); b0, b1 = r_range(rng, mid, False)
        a, b = r_amt(rng, 0.2, 300), float("%.6g" % (r_amt(rng, 0.2, 300) * mid))
        yis = a * rng.uniform(1, 4) if rng.random() < 0.3 and s0 != s1 else None
        yib = b * rng.uniform(1, 4) if rng.random() < 0.3 and b0 != b1 else None
        psm = pbm = None
        if yis is None and abs(s1 / s0 - 1) > 1e-2 and rng.random() < 0.3: psm = s0 + (s1 - s0) * rng.uniform(0.1, 0.8)
        if yib is None and abs(b1 / b0 - 1) > 1e-2 and rng.random() < 0.3: pbm = b0 + (b1 - b0) * rng.uniform(0.1, 0.8)
        L.append(dict(a=a, s0=s0, s1=s1, psm=psm, yis=yis, b=b, b0=b0, b1=b1, pbm=pbm, yib=yib, single=rng.choice([None, None, "ETH", "USDC"])))
    return L


def inv(p):
    return None if p is None else 1 / p


def add_variant(w, s, style, rng):
    """adds strategy s in a given clothing; returns ids (eth order, usdc order)"""
    sim = w.sim
    rev = "rev" in style
    P = inv if rev else (lambda p: p)
    pair = ("USDC/ETH" if rev else "ETH/USDC")
    if "low" in style: pair = pair.lower()
    if "nopair" in style: pair = None
    from_usdc = "fromquote" in style
    num = (lambda x: x)
    if "dec" in style: num = lambda x: None if x is None else D(str(x))
    if s["single"] == "ETH":
        r = sim.add_order("ETH", num(s["a"]), P(s["s0"]), P(s["s1"]), pair=pair, p_marginal=P(s["psm"]), y_int=num(s["yis"]))
        ids = list(r["orders"]["id"]) if r["success"] else None
        out = ids and (ids[0], ids[1])
    elif s["single"] == "USDC":
        r = sim.add_order("USDC", num(s["b"]), P(s["b0"]), P(s["b1"]), pair=pair, p_marginal=P(s["pbm"]), y_int=num(s["yib"]))
        ids = list(r["orders"]["id"]) if r["success"] else None
        out = ids and (ids[1], ids[0])
    elif from_usdc:
        r = sim.add_strategy("USDC", num(s["b"]), P(s["b0"]), P(s["b1"]), num(s["a"]), P(s["s0"]), P(s["s1"]), pair=pair, psell_marginal=P(s["pbm"]),
                             pbuy_marginal=P(s["psm"]), y_int_sell=num(s["yib"]), y_int_buy=num(s["yis"]))
        ids = list(r["orders"]["id"]) if r["success"] else None
        out = ids and (ids[1], ids[0])
    else:
        a0, a1, c0, c1 = s["s0"], s["s1"], s["b0"], s["b1"]
        if "swapped" in style: a0, a1, c0, c1 = a1, a0, c1, c0
        r = sim.add_strategy("ETH", num(s["a"]), P(a0), P(a1), num(s["b"]), P(c0), P(c1), pair=pair, psell_marginal=P(s["psm"]),
                             pbuy_marginal=P(s["pbm"]), y_int_sell=num(s["yis"]), y_int_buy=num(s["yib"]))
        ids = list(r["orders"]["id"]) if r["success"] else None
        out = ids and (ids[0], ids[1])
    w.ctx.log("add", style, s, r.get("error"))
    if not r["success"]:
        w.ctx.fail("variant-refused", f"{style}: {r['error']}")
    return int(out[0]), int(out[1])


STYLES = ["rev", "rev fromquote", "fromquote", "low", "nopair", "dec", "swapped", "rev low", "rev dec fromquote", "rev nopair", "perm"]


def trade_variant(w, tr, style, kw):
    sim = w.sim
    tkn, amt = tr["tkn"], tr["amt"]
    bt = tr["by_target"]
    rev = "rev" in style
    pair = "USDC/ETH" if rev else "ETH/USDC"
    if "low" in style: pair = pair.lower()
    if "nopair" in style: pair = None
    if "dec" in style: amt = D(str(amt))
    kw = dict(kw)
    if "limit_price" in kw and rev: kw["limit_price"] = 1 / kw["limit_price"]
    verb = w.ctx.rng.choice(["amm", "trader", "neg", "neg-trader"])
    if verb == "amm": f = sim.amm_sells if bt else sim.amm_buys
    elif verb == "trader": f = sim.trader_buys if bt else sim.trader_sells
    elif verb == "neg": f = sim.amm_buys if bt else sim.amm_sells; amt = -amt
    else: f = sim.trader_sells if bt else sim.trader_buys; amt = -amt
    r = f(tkn, amt, pair=pair, **kw)
    w.ctx.log("trade", style, verb, tkn, amt, pair, kw, r.get("error", "ok"))
    return r


def case(ctx):
    rng = ctx.rng
    mm = rng.choice(["exact", "exact", "fast", "alpha"])
    mid = float("%.3g" % r_sig(rng, 0.1, 5000))
    book = make_book(ctx, rng, crowd(rng, 1, 4), mid)
    style = rng.choice(STYLES)
    default = "USDC/ETH" if "rev" in style else "ETH/USDC"
    w1 = World(ctx, mm, pair="ETH/USDC")
    w2 = World(ctx, mm, pair=default if ("nopair" in style or rng.random() < 0.5) else None)
    order = list(range(len(book)))
    if "perm" in style: rng.shuffle(order)
    m1 = [add_variant(w1, s, "", rng) for s in book]
    m2 = [None] * len(book)
    for k in order:
        m2[k] = add_variant(w2, book[k], style, rng)
    i12 = {}
    for (a, b), (c, d) in zip(m1, m2):
        i12[a] = c; i12[b] = d

    def compare(what):
        for i, j in i12.items():
            o1, o2 = w1.sim.orders[i], w2.sim.orders[j]
            ctx.check("holdings", o1.tkn == o2.tkn and bool(o1.disabled) == bool(o2.disabled) and i12[o1.linked_to_id] == o2.linked_to_id, "structure", f"{i}/{j} {style} {what}")
            ctx.close("holdings", o1.y, o2.y, "holdings-differ", 1e-7, 1e-7 * (1 + float(o1.y_int)) if flat else 1e-8 * (1 + float(o1.y_int)), f"{style} {what}: order {i}/{j}")
            ctx.close("holdings", o1.y_int, o2.y_int, "capacity-differs", 1e-7, 1e-8, f"{style} {what}: order {i}/{j}")
    flat = any(abs(s["s1"] / s["s0"] - 1) < 1e-3 or abs(s["b1"] / s["b0"] - 1) < 1e-3 for s in book)
    compare("after creation")
    # published prices: inverted by the reversal, otherwise equal
    t1 = {r["id"]: r for r in w1.sim.state()["orders"].to_dict(orient="records")}
    t2 = {r["id"]: r for r in w2.sim.state()["orders"].to_dict(orient="records")}
    for i, j in i12.items():
        for c in ("p_start", "p_end", "p_marg"):
            a, b = t1[i][c], t2[j][c]
            if a is None or a != a:
                ctx.check("prices", b is None or b != b, "price-differs", f"{c} {a} {b}")
            else:
                ctx.close("prices", 1 / b if "rev" in style else b, a, "price-differs", 1e-8, 0, f"{style}: {c} of {i}/{j}")
        ctx.check("prices", t2[j]["p_unit"] == ("ETH per USDC" if "rev" in style else "USDC per ETH"), "unit", t2[j]["p_unit"])
    n = 0
    for _ in range(rng.randint(1, 4)):
        for i, o in w1.sim.orders.items():
            s = book[[k for k, m in enumerate(m1) if i in m][0]]
            if o.tkn == "ETH": p = (s["s0"], s["s1"]) if s["single"] != "USDC" else (None, None)
            else: p = (s["b0"], s["b1"]) if s["single"] != "ETH" else (None, None)
            w1.model[i] = w1.model_order(i, o.linked_to_id, o.tkn, "ETH", "USDC", o.y, *p, y_int=o.y_int if p[0] else None)
        tr = random_trade(ctx, w1, [("ETH", "USDC")])
        if not tr: continue
        kw = dict(threshold_orders=100) if mm == "alpha" else {}
        if rng.random() < 0.3: kw["limit_price"] = mid * rng.choice([0.4, 0.95, 1.05, 2.5])
        if rng.random() < 0.3: kw["limit_amt"] = 1e-9 if not tr["by_target"] else 1e30; kw.pop("limit_price", None)
        if rng.random() < 0.2: kw["support_partial"] = True
        kw2 = dict(kw)
        if rng.random() < 0.3:
            ids = sorted(w1.sim.orders)
            use = rng.sample(ids, rng.randint(1, len(ids)))
            kw["use_positions"] = use; kw2["use_positions"] = [i12[i] for i in use]
        r1 = trade_variant(w1, tr, "", kw)
        r2 = trade_variant(w2, tr, style, kw2)
        ctx.check("fills", r1["success"] == r2["success"], "one-accepted-one-refused", f"{style}: {r1.get('error')} / {r2.get('error')}")
        if not r1["success"]: continue
        a1, a2 = World.routes(r1)[1][0], World.routes(r2)[1][0]
        ctx.check("fills", a1["exec"] == a2["exec"] and a1["limitfail"] == a2["limitfail"], "limit-differs", f"{style}: {a1['limitfail']} {a2['limitfail']} {kw}")
        ctx.check("fills", a1["tkn1"] == a2["tkn1"] and a1["tkn2"] == a2["tkn2"], "tokens-differ", f"{style}")
        tolp = 1e-11 * (1 + a1["amt1"] / max(a1["amt2"], 1e-12) + a1["amt2"] / max(a1["amt1"], 1e-12))
        ctx.close("fills", a2["amt1"], a1["amt1"], "amounts-differ", 1e-8, tolp, f"{style} amt1")
        ctx.close("fills", a2["amt2"], a1["amt2"], "amounts-differ", 1e-8, tolp, f"{style} amt2")
        if min(a1["amt1"], a1["amt2"]) > 1e-2:
            ctx.close("prices", 1 / a2["price"] if "rev" in style else a2["price"], a1["price"], "trade-price-differs", 1e-7, 0, style)
        compare("after trade")
        n += 1
        ctx.cover(mm, style, "t" if tr["by_target"] else "s", "lim" if "limit_price" in kw else "limamt" if "limit_amt" in kw else "")
    ctx.run(ctx.trail, n > 0)
    ctx.sample(ctx.trail[:8])


DIRECTED = []
CASES = [("twins", case, 160, 2200)]
