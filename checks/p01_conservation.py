from decimal import Decimal as D
from vlib.simlib import *

PID = "P01"
RULE = ("random histories of adding orders/strategies, dry runs, refused trades, executed trades (both directions, by "
        "source and by target, all matching methods) and deletions over several pairs; a history is non-trivial if at "
        "least one trade executed; distinct by its event list")
ASSUME = ["amounts are compared up to 1e-10 relative / 1e-9 absolute because the simulator publishes fills as floats rounded to 12 decimals",
          "what a self-linked order receives leaves the simulation (documented)"]
REQUIRED = ["ledger", "aggregate", "tokens", "conserve", "requested"]


def totals(w):
    t = {}
    for o in w.sim.orders.values():
        t[o.tkn] = t.get(o.tkn, D(0)) + D(o.y)
    return t


def executed_trade(ctx, w, tr, **kw):
    """executes a trade and checks everything that moved against what was reported"""
    before = totals(w)
    n0 = w.sim.numtrades
    r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], **kw)
    if not r["success"]:
        w.compare("ledger", "refused")        # whatever the reason, nothing may have moved
        ctx.skip("trade refused")
    rt, ag = w.apply(r)
    out, inn = tr["out"], tr["inn"]
    ctx.check("aggregate", len(ag) == 1 and len(rt) >= 1, "record-shape", f"{len(ag)} aggregates, {len(rt)} routes")
    a = ag[0]
    for row in rt + ag:
        ctx.check("tokens", row["tkn1"] == out and row["tkn2"] == inn, "record-tokens",
                  f"record says AMM sells {row['tkn1']} buys {row['tkn2']}, trade was {out} for {inn}")
        ctx.check("tokens", row["exec"] is True or row["exec"] == True, "record-exec", "executed trade recorded as not executed")
        ctx.check("tokens", row["amt1"] >= 0 and row["amt2"] >= 0, "negative-amount", f"{row['amt1']} {row['amt2']}")
    s1, s2 = sum(x["amt1"] for x in rt), sum(x["amt2"] for x in rt)
    ctx.close("aggregate", a["amt1"], s1, "aggregate-out", 1e-10, 1e-10 + 1e-12 * len(rt), "aggregate amount sold")
    ctx.close("aggregate", a["amt2"], s2, "aggregate-in", 1e-10, 1e-10 + 1e-12 * len(rt), "aggregate amount bought")
    ctx.check("aggregate", a["nroutes"] == len(rt), "aggregate-nroutes", f"{a['nroutes']} vs {len(rt)}")
    req = abs(tr["amt"])
    ctx.close("requested", a["amt1"] if tr["by_target"] else a["amt2"], req, "requested-amount",
              1e-9, 1e-9, f"{'bought' if tr['by_target'] else 'sold'} by trader vs requested")
    # the ledger: the named orders moved by the reported amounts and nothing else moved
    w.compare("ledger", "ledger")
    # conservation per token over the whole book
    after = totals(w)
    lost = sum(x["amt2"] for x in rt if w.model[int(x["routeix"])].lid == int(x["routeix"]))
    for t in set(before) | set(after):
        exp = before.get(t, 0)
        if t == out: exp = exp - D(a["amt1"])
        if t == inn: exp = exp + D(a["amt2"]) - D(lost)
        ctx.close("conserve", after.get(t, 0), exp, "conservation", 1e-10, 1e-8, f"total {t} held by all orders")
    ctx.cover(w.mm, "target" if tr["by_target"] else "source", "out-base" if out == tr["base"] else "out-quote",
              "routes%d" % (min(len(rt), 4) if len(rt) < 10 else 10), "overfill" if any(
                  w.model[w.model[int(x["routeix"])].lid].y == w.model[w.model[int(x["routeix"])].lid].yint for x in rt) else "")
    return r


def history(mm):
    def run(ctx):
        rng = ctx.rng
        pairs = rng.sample(PAIRS, rng.choice([1, 1, 2]))
        w = World(ctx, mm, pair="/".join(pairs[0]) if rng.random() < 0.5 else None)
        crowd = rng.random() < 0.12
        for _ in range(rng.randint(12, 22) if crowd else rng.randint(2, 6)):
            w.random_strategy(pairs=pairs)
        w.compare("ledger", "add")
        nex = 0
        for _ in range(rng.randint(2, 3) if crowd else rng.randint(3, 9)):
            k = rng.random()
            if k < 0.62:
                tr = random_trade(ctx, w, pairs)
                if tr is None: continue
                kw = {}
                if mm == "alpha": kw["threshold_orders"] = 100
                if rng.random() < 0.2: kw["alias"] = True
                if rng.random() < 0.15: kw["pair"] = f"{tr['quote']}/{tr['base']}"
                if rng.random() < 0.1: kw["support_partial"] = True
                if rng.random() < 0.1:
                    # the same trade asked for with a negative amount on the opposite verb
                    tr2 = dict(tr); tr2["amt"] = -tr["amt"]
                    before_pt = tr["by_target"]
                    n = dict(tr2); n["by_target"] = not before_pt
                    executed_negative(ctx, w, tr, kw)
                else:
                    executed_trade(ctx, w, tr, **kw)
                w.sync()
                nex += 1
            elif k < 0.72:
                tr = random_trade(ctx, w, pairs)
                if tr: w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False)
                w.compare("ledger", "dryrun")
            elif k < 0.82:
                tr = random_trade(ctx, w, pairs)
                if tr:
                    r = w.trade(tr["by_target"], tr["tkn"], tr["amt"] * 1e7, tr["base"], tr["quote"])
                    ctx.check("refused", not r["success"], "excess-accepted", "trade for 10^7 times the amount accepted")
                w.compare("ledger", "refused")
            elif k < 0.92:
                w.random_strategy(pairs=pairs)
                w.compare("ledger", "add")
            elif w.model:
                i = rng.choice(sorted(w.model))
                ids = w.sim.delete_strategy(i)
                ctx.log("delete", i, ids)
                for j in {i, w.model[i].lid}:
                    w.model.pop(j, None)
                w.compare("ledger", "delete")
        ctx.run(ctx.trail, nex > 0)
        if nex > 1: ctx.sample(ctx.trail[:8])
    return run


def executed_negative(ctx, w, tr, kw):
    """-amt on the opposite verb is the same trade"""
    w2 = dict(tr)
    before = totals(w)
    r = w.trade(not tr["by_target"], tr["tkn"], -tr["amt"], tr["base"], tr["quote"], **kw)
    if not r["success"]:
        w.compare("ledger", "refused")
        ctx.skip("trade refused")
    rt, ag = w.apply(r)
    ctx.close("requested", ag[0]["amt1"] if tr["by_target"] else ag[0]["amt2"], tr["amt"], "requested-amount", 1e-9, 1e-9, "negative amt")
    for row in rt + ag:
        ctx.check("tokens", row["tkn1"] == tr["out"] and row["tkn2"] == tr["inn"], "record-tokens", "tokens of a negative-amount trade")
    w.compare("ledger", "ledger")


def d_pingpong(mm):
    """two strategies, alternate trades that drain one side and overfill the other, several times"""
    def run(ctx):
        w = World(ctx, mm, pair="ETH/USDC")
        w.add_strategy("ETH", 10, 2000, 2500, 10000, 1900, 1500, "ETH", "USDC")
        w.add_strategy("USDC", 500, 1990, 1700, 0.4, 2050, 2900, "ETH", "USDC")
        w.add_strategy("ETH", 7, 2000, 2000, base="ETH", quote="USDC", single=True)
        for i in range(5):
            for out in ("ETH", "USDC"):
                os_ = w.eligible(out, "ETH", "USDC")
                if not os_: continue
                bt = i % 2 == 0
                amt = float(sum(o.y for o in os_)) if bt else float(sum(o.dx_of_dy(o.y) for o in os_))
                amt = float("%.8g" % (amt * (0.9 if i < 4 else 0.3)))
                inn = "USDC" if out == "ETH" else "ETH"
                executed_trade(ctx, w, dict(by_target=bt, tkn=out if bt else inn, amt=amt, base="ETH", quote="USDC", out=out, inn=inn))
                w.sync()
        ctx.run(("pingpong", mm))
    return run


def d_selflinked(ctx):
    """self-linked single orders: nothing but the sold tokens moves"""
    w = World(ctx, "exact", pair="ETH/USDC", exclude_future=False)
    r = w.sim._add_replace_single_order("ETH", 10, 2000, 3000) if hasattr(w.sim, "_add_replace_single_order") else None
    if not r or not r["success"]:
        return
    i = r["id"]
    w.model[i] = w.model_order(i, i, "ETH", "ETH", "USDC", 10, 2000, 3000)
    w.add_strategy("ETH", 3, 2010, 2800, 100, 1500, 1200, "ETH", "USDC")
    executed_trade(ctx, w, dict(by_target=True, tkn="ETH", amt=5, base="ETH", quote="USDC", out="ETH", inn="USDC"))
    ctx.run("selflinked")


DIRECTED = [("pingpong_exact", d_pingpong("exact")), ("pingpong_fast", d_pingpong("fast")),
            ("pingpong_alpha", d_pingpong("alpha")), ("selflinked", d_selflinked)]
CASES = [("hist_exact", history("exact"), 110, 1500), ("hist_fast", history("fast"), 40, 500),
         ("hist_alpha", history("alpha"), 30, 400)]
