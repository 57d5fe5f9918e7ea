from decimal import Decimal as D
from vlib.simlib import *

PID = "P02"
RULE = ("random books (full, partly used, overfilled, fixed-price, narrow, wide, huge/small magnitude orders; either token as base) "
        "traded by source and by target with every matching method, executed and dry; every single fill is compared with the "
        "integral of an independently coded bonding curve; non-trivial if a fill was checked; distinct by event list")
ASSUME = ["fills are published rounded to 12 decimals; tolerance 2e-12 scaled by the local price plus 1e-9 relative",
          "prices between 1e-6 and 1e6, amounts above 1e-5"]
REQUIRED = ["curve", "between", "avgprice", "newmarg"]


def observe(ctx, w, tr, execute=True, **kw):
    r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=execute, **kw)
    if not r["success"]:
        ctx.skip("refused")
    rt, ag = w.routes(r)
    check_fills(ctx, w, rt)
    pre = {int(x["routeix"]): w.model[int(x["routeix"])].copy() for x in rt}
    for x in rt:
        o = pre[int(x["routeix"])]
        dy, dx = float(x["amt1"]), float(x["amt2"])
        if dy > 1e-4 and dx > 1e-4:
            avg = dy / dx
            ctx.check("between", avg <= float(o.pmarg()) * (1 + 1e-7) and avg >= float(o.pl) * (1 - 1e-7), "price-outside-range",
                      f"average rate {avg} of a fill outside [{float(o.pl)}, {float(o.pmarg())}]")
    # published average price of the trade: total quote over total base, in the pair's convention
    a = ag[0]
    base = tr["base"] if not kw.get("pair") else kw["pair"].split("/")[0]
    quote = tr["quote"] if not kw.get("pair") else kw["pair"].split("/")[1]
    b, q = (a["amt1"], a["amt2"]) if a["tkn1"] == base else (a["amt2"], a["amt1"])
    if min(b, q) > 1e-3:
        for x in rt + ag:
            ctx.close("avgprice", x["price"], q / b, "avg-price", 1e-7, 0, "published price vs amounts")
            ctx.check("avgprice", x["p_unit"] == f"{quote} per {base}", "price-unit", f"{x['p_unit']}")
    if execute:
        w.apply(r)
        # marginal prices the simulator publishes after the trade
        st = w.sim.state()["orders"] if ctx.rng.random() < 0.5 else None
        if st is not None:
            for x in st.to_dict(orient="records"):
                o = w.model[int(x["id"])]
                if o.disabled or o.yint < D("1e-6") or o.y < 0:
                    continue
                pm = o.pmarg()
                pm = pm if o.tkn == o.quote else 1 / pm
                ctx.close("newmarg", x["p_marg"], float(pm), "marginal-price", 1e-7, 0, f"marginal price of order {x['id']}")
        w.sync()
    ctx.cover(w.mm, "t" if tr["by_target"] else "s", "exec" if execute else "dry", "n%d" % min(len(rt), 4))
    return r


def history(mm):
    def run(ctx):
        rng = ctx.rng
        pairs = [rng.choice(PAIRS)]
        w = World(ctx, mm)
        for _ in range(crowd(rng, 1, 5)):
            w.random_strategy(pairs=pairs)
        n = 0
        for _ in range(rng.randint(2, 7)):
            tr = random_trade(ctx, w, pairs)
            if not tr: continue
            kw = dict(threshold_orders=100) if mm == "alpha" else {}
            if rng.random() < 0.2: kw["pair"] = f"{tr['quote']}/{tr['base']}"
            observe(ctx, w, tr, execute=rng.random() < 0.8, **kw)
            n += 1
        ctx.run(ctx.trail, n > 0)
        ctx.sample(ctx.trail[:6])
    return run


def single(mm):
    """one order of extreme parameters, sampled along its whole range"""
    def run(ctx):
        rng = ctx.rng
        w = World(ctx, mm, pair="ETH/USDC")
        p = r_sig(rng, 1e-4, 1e5)
        width = rng.choice([1, 1 + 1e-6, 1.0001, 1.1, 3, 100, 1e4])
        tkn = rng.choice(["ETH", "USDC"])
        amt = r_amt(rng, 0.01, 1e6)
        a, b = (p, p * width) if tkn == "ETH" else (p, p / width)
        yint = None if rng.random() < 0.5 else amt * rng.choice([1.2, 10, 1000])
        w.add_strategy(tkn, amt, a, b, base="ETH", quote="USDC", yis=yint, single=True)
        o = [o for o in w.model.values() if o.tkn == tkn][0]
        inn = "USDC" if tkn == "ETH" else "ETH"
        n = 0
        for f in sorted(rng.random() for _ in range(5)):
            bt = rng.random() < 0.5
            dy = float(o.y) * f * 0.8
            amt = float("%.10g" % (dy if bt else float(o.dx_of_dy(D(dy)))))
            if amt < 1e-6 or dy < 1e-6: continue
            observe(ctx, w, dict(by_target=bt, tkn=tkn if bt else inn, amt=amt, base="ETH", quote="USDC", out=tkn, inn=inn),
                    execute=rng.random() < 0.6)
            n += 1
        ctx.run(ctx.trail, n > 0)
    return run


def d_small_capacity(ctx):
    """orders holding less than one unit"""
    for mm in ("exact", "alpha", "fast"):
        w = World(ctx, mm, pair="ETH/USDC")
        w.add_strategy("ETH", 0.5, 2000, 3000, base="ETH", quote="USDC", single=True)
        w.add_strategy("ETH", 0.01, 1990, 2200, 0.7, 1500, 1000, base="ETH", quote="USDC")
        for bt, amt in ((True, 0.1), (False, 300), (True, 0.05)):
            observe(ctx, w, dict(by_target=bt, tkn="ETH" if bt else "USDC", amt=amt, base="ETH", quote="USDC", out="ETH", inn="USDC"))
        observe(ctx, w, dict(by_target=True, tkn="USDC", amt=0.3, base="ETH", quote="USDC", out="USDC", inn="ETH"))
        ctx.run(("small", mm))


def d_overfilled(ctx):
    """an overfilled linked order trades from its start price on its enlarged curve"""
    for mm in ("exact", "alpha", "fast"):
        w = World(ctx, mm, pair="ETH/USDC")
        w.add_strategy("ETH", 10, 2000, 3000, 100, 1900, 1000, base="ETH", quote="USDC")
        w.add_strategy("ETH", 10, 2100, 2500, 100, 1900, 1300, base="ETH", quote="USDC", yib=50000)
        for bt, tkn, amt in ((True, "ETH", 7), (True, "USDC", 3000), (False, "ETH", 2), (False, "USDC", 3000), (True, "USDC", 1000)):
            out = tkn if bt else ("USDC" if tkn == "ETH" else "ETH")
            observe(ctx, w, dict(by_target=bt, tkn=tkn, amt=amt, base="ETH", quote="USDC", out=out, inn="USDC" if out == "ETH" else "ETH"))
        ctx.run(("overfilled", mm))


DIRECTED = [("small_capacity", d_small_capacity), ("overfilled", d_overfilled)]
CASES = [("hist_exact", history("exact"), 90, 1200), ("hist_fast", history("fast"), 40, 600), ("hist_alpha", history("alpha"), 30, 500),
         ("single_exact", single("exact"), 80, 1000), ("single_fast", single("fast"), 40, 400), ("single_alpha", single("alpha"), 20, 200)]
