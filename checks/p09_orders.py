from decimal import Decimal as D
from vlib.simlib import *

PID = "P09"
RULE = ("random sequences of strategy/order creation (both pair orientations, every way to give the filling level, swapped ranges, disabled "
        "sides, own ids), invalid creations of every kind, and deletions (any of the two ids, repeated, unknown) with the published "
        "order table checked after each step against a model; distinct by event list; non-trivial if an order was created")
ASSUME = ["prices are compared at 1e-9 relative (they are stored inverted for base-token orders)"]
REQUIRED = ["table", "links", "ids", "refused", "delete", "returned"]


def expected_row(m):
    ps, pe = m.p_pair
    row = dict(id=m.id, lid=m.lid, tkn=m.tkn, pair=m.base + m.quote, y=float(m.y), y_int=float(m.yint), y_unit=m.tkn,
               disabled=m.disabled, p_unit=f"{m.quote} per {m.base}", cid=m.cid)
    row["p_start"] = None if ps is None else float(ps)
    row["p_end"] = None if pe is None else float(pe)
    if m.disabled:
        row["p_marg"] = None
    elif m.yint > 0:
        pm = m.pmarg()
        row["p_marg"] = float(pm if m.tkn == m.quote else 1 / pm)
    return row


def is_none(v):
    return v is None or v != v


def check_row(ctx, mon, got, m):
    exp = expected_row(m)
    for k, e in exp.items():
        g = got[k]
        if k in ("p_start", "p_end", "p_marg"):
            if e is None:
                ctx.check(mon, is_none(g), f"row:{k}", f"order {m.id}: {k}={g}, expected none")
            else:
                ctx.close(mon, g, e, f"row:{k}", 1e-8 if k == "p_marg" else 1e-9, 0, f"order {m.id} {k}")
        elif k in ("y", "y_int"):
            ctx.close(mon, g, e, f"row:{k}", 1e-9, 1e-12, f"order {m.id} {k}")
        elif k == "disabled":
            ctx.check(mon, bool(g) == e, f"row:{k}", f"order {m.id}: disabled={g}")
        else:
            ctx.check(mon, g == e, f"row:{k}", f"order {m.id}: {k}={g!r}, expected {e!r}")


def check_table(ctx, w):
    st = w.sim.state()
    ctx.check("table", "orders" in st, "state-fails", f"state() reports {st.get('error')}")
    rows = st["orders"].to_dict(orient="records") if len(st["orders"]) else []
    ids = [r["id"] for r in rows]
    ctx.check("ids", sorted(ids) == sorted(w.model) and len(set(ids)) == len(ids), "order-ids", f"{sorted(ids)} expected {sorted(w.model)}")
    for r in rows:
        check_row(ctx, "table", r, w.model[r["id"]])
        m = w.model[r["id"]]
        if m.lid in w.model:
            ctx.check("links", w.model[m.lid].lid == m.id, "model", "")
    uis = st["orderuis"]
    ctx.check("links", sorted(uis) == sorted(w.model), "orderui-ids", f"{sorted(uis)}")
    for i, ui in uis.items():
        ctx.check("links", ui.linked is uis[w.model[i].lid], "orderui-link", f"curve object of order {i} linked to {ui.linked}")


def add_random(ctx, w, rng, seen):
    pairs = [rng.choice(PAIRS)]
    if rng.random() < 0.3:
        pairs = [(pairs[0][1], pairs[0][0])]
        k = MID[(pairs[0][1], pairs[0][0])]
    before = set(w.model)
    cid = None
    if pairs[0] in MID:
        if rng.random() < 0.75:
            i1, i2 = w.random_strategy(pairs=pairs)
        else:
            cid = str(rng.randint(0, 10**30))
            m = MID[pairs[0]]
            i1, i2 = w.add_strategy(pairs[0][0], 10, m * 1.1, m * 1.2, rng.choice([None, 0, 5]), m * 0.9, m * 0.8, *pairs[0], cid=cid)
    else:
        m = 1 / MID[(pairs[0][1], pairs[0][0])]
        tkn = rng.choice(pairs[0])
        a, b = (m * 1.1, m * 1.5) if tkn == pairs[0][0] else (m * 0.9, m * 0.5)
        amt = r_amt(rng, 1, 100)
        k = rng.random()
        kw = dict(yis=amt * rng.uniform(1, 5)) if k < 0.3 else dict(psm=a + (b - a) * rng.uniform(0.1, 0.9)) if k < 0.6 else {}
        if rng.random() < 0.3: a, b = b, a
        i1, i2 = w.add_strategy(tkn, amt, a, b, base=pairs[0][0], quote=pairs[0][1], single=rng.random() < 0.7, **kw)
    ctx.check("ids", i1 != i2 and not {i1, i2} & seen and min(i1, i2) > max(seen | {-1}), "id-reused", f"new ids {i1},{i2}, used before {sorted(seen)}")
    seen |= {i1, i2}
    ctx.cover("add", "cid" if cid else "", "rev" if pairs[0] not in MID else "")


def invalid(ctx, w, rng):
    s = w.sim
    b, q = rng.choice(PAIRS)
    m = MID[(b, q)]
    pair = f"{b}/{q}"
    good = dict(tkn=b, amt_sell=10, psell_start=m * 1.1, psell_end=m * 1.3, amt_buy=7, pbuy_start=m * 0.9, pbuy_end=m * 0.8, pair=pair)
    bad = rng.choice([
        ("capacity below holdings (sell)", dict(y_int_sell=9)), ("capacity below holdings (buy)", dict(y_int_buy=6.9)),
        ("both filling levels (sell)", dict(y_int_sell=20, psell_marginal=m * 1.2)), ("both filling levels (buy)", dict(y_int_buy=20, pbuy_marginal=m * 0.85)),
        ("half a range (sell)", dict(psell_end=None)), ("half a range (sell)", dict(psell_start=None)),
        ("half a range (buy)", dict(pbuy_start=None)), ("half a range (buy)", dict(pbuy_end=None)),
        ("foreign token", dict(tkn="XYZ")), ("bad pair", dict(pair=b + q)), ("pair missing", dict(pair=None)), ("zero price", dict(psell_start=0)),
        ("text price", dict(pbuy_start="1000"))])
    name, kw = bad
    kw = {**good, **kw}
    if name == "pair missing" and w.pair: return
    tbl0 = w.snapshot()
    old = s.raiseonerror
    s.raiseonerror = rng.random() < 0.3
    was = s.raiseonerror
    try:
        r = s.add_strategy(**kw); raised = False
    except Exception as e:
        r = dict(success=False, error=str(e)); raised = True
    s.raiseonerror = old
    ctx.log("invalid", name, was, r.get("error"))
    ctx.check("refused", not r["success"], "invalid-accepted:" + name, f"{name}: {kw}")
    ctx.check("refused", raised == was, "error-policy", f"{name}: raised={raised}, raiseonerror={was}")
    ctx.check("refused", w.snapshot() == tbl0, "invalid-left-orders:" + name, f"{name} left {set(w.snapshot()) - set(tbl0)}")
    ctx.cover("invalid", name)


def delete(ctx, w, rng):
    if w.model and rng.random() < 0.8:
        i = rng.choice(sorted(w.model))
    else:
        i = rng.choice([-1, 10**6] + [x for x in range(40) if x not in w.model][:3])
    exp = sorted({i, w.model[i].lid}) if i in w.model else []
    f = rng.choice([w.sim.delete_order, w.sim.delete_strategy])
    got = f(i)
    ctx.log("delete", i, got)
    ctx.check("delete", sorted(got) == exp, "delete-result", f"deleting {i} returned {got}, expected {exp}")
    others = {k: v for k, v in w.snapshot().items() if k not in exp}
    for j in exp:
        w.model.pop(j)
    ctx.check("delete", set(w.sim.orders) == set(w.model), "delete-effect", f"deleting {i} left {sorted(w.sim.orders)}, expected {sorted(w.model)}")
    ctx.check("delete", f(i) == [], "delete-twice", f"deleting {i} again returned something")
    ctx.check("delete", set(w.sim.orders) == set(w.model), "delete-effect", "deleting twice removed something")
    ctx.cover("delete", "known" if exp else "unknown", "first" if i == 0 else "")


def history(ctx):
    rng = ctx.rng
    w = World(ctx, rng.choice(["exact", "fast", "alpha"]), pair=rng.choice([None, "ETH/USDC"]))
    w.strict_add = True
    seen = set()
    n = 0
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < 0.5:
            add_random(ctx, w, rng, seen); n += 1
        elif k < 0.75:
            delete(ctx, w, rng)
        else:
            invalid(ctx, w, rng)
        check_table(ctx, w)
    ctx.run(ctx.trail, n > 0)
    ctx.sample(ctx.trail[:8])


def returned(ctx):
    """what adding returns describes the orders just added, and can be traded"""
    rng = ctx.rng
    w = World(ctx, "exact", pair="ETH/USDC")
    w.random_strategy()
    r = w.sim.add_strategy("ETH", 10, 2100, 2500, 900, 1900, 1500, pair=rng.choice([None, "ETH/USDC"]), carbon_id="77")
    rows = r["orders"].to_dict(orient="records")
    ctx.check("returned", len(rows) == 2, "returned-rows", f"{len(rows)}")
    i1, i2 = rows[0]["id"], rows[1]["id"]
    check_row(ctx, "returned", rows[0], w.model_order(i1, i2, "ETH", "ETH", "USDC", 10, 2100, 2500, cid="77"))
    check_row(ctx, "returned", rows[1], w.model_order(i2, i1, "USDC", "ETH", "USDC", 900, 1900, 1500, cid="77"))
    u = r["orderuis"]
    ctx.check("returned", set(u) == {i1, i2} and u[i1].linked is u[i2] and u[i2].linked is u[i1], "returned-links", "curve objects not linked to each other")
    ctx.run(ctx.trail)


def replace(ctx):
    """non-public single orders with chosen ids and links"""
    rng = ctx.rng
    w = World(ctx, "exact", pair="ETH/USDC", exclude_future=False)
    f = getattr(w.sim, "_add_replace_single_order", None)
    if f is None: ctx.skip("no such function")
    r = f("ETH", 10, 2000, 3000)
    ctx.check("returned", r["success"] and r["id"] == r["lid"], "single-order-self-link", f"{r.get('error')} {r.get('id')},{r.get('lid')}")
    i = r["id"]
    w.model[i] = w.model_order(i, i, "ETH", "ETH", "USDC", 10, 2000, 3000)
    check_table(ctx, w)
    r = f("ETH", 5, 2200, 2500, oid=i, lid=i)
    w.model[i] = w.model_order(i, i, "ETH", "ETH", "USDC", 5, 2200, 2500)
    check_table(ctx, w)
    r = f("USDC", 500, 1500, 1200, lid=i)
    j = r["id"]
    w.model[j] = w.model_order(j, i, "USDC", "ETH", "USDC", 500, 1500, 1200)
    r = f("ETH", 5, 2200, 2500, oid=i, lid=j)
    w.model[i] = w.model_order(i, j, "ETH", "ETH", "USDC", 5, 2200, 2500)
    check_table(ctx, w)
    w2 = World(ctx, "exact", pair="ETH/USDC")
    r = w2.sim._add_replace_single_order("ETH", 10, 2000, 3000)
    ctx.check("refused", not r["success"] and not w2.sim.orders, "future-feature", "experimental single orders accepted with future features excluded")
    ctx.run(ctx.trail)


def d_delete_first(ctx):
    """the very first strategy (ids 0 and 1) deleted through either id"""
    for i in (0, 1):
        w = World(ctx, "exact", pair="ETH/USDC")
        w.add_strategy("ETH", 10, 2000, 3000, 100, 1500, 1000, "ETH", "USDC")
        w.add_strategy("ETH", 10, 2000, 3000, base="ETH", quote="USDC", single=True)
        ids = sorted(w.model)
        got = w.sim.delete_order(ids[i])
        ctx.check("delete", sorted(got) == ids[:2], "delete-result", f"{got}")
        w.model.pop(ids[0]); w.model.pop(ids[1])
        check_table(ctx, w)
        ctx.run(("first", i))


DIRECTED = [("delete_first", d_delete_first), ("replace", replace)]
CASES = [("history", history, 170, 2500), ("returned", returned, 20, 100)]
