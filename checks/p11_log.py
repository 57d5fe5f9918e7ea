from decimal import Decimal as D
from vlib.simlib import *
import ast

PID = "P11"
RULE = ("random histories of creations, deletions, executed, quoted, limit-missed and refused trades over several pairs; afterwards an offline checker "
        "replays the published trade log over the initial holdings and compares with the published order table and liquidity; distinct by event "
        "list; non-trivial if the log holds at least two trades")
ASSUME = ["replay tolerance 1e-9 relative (fills are published as floats)",
          "liquidity aggregates by concatenated pair name, as documented; pairs whose names concatenate alike are not mixed here"]
REQUIRED = ["replay", "log-shape", "log=returned", "liquidity", "filter", "partial-flag"]


def offline(ctx, w, created, deleted_at, returned):
    st = w.sim.state()
    ctx.check("log-shape", "orders" in st and "trades" in st and "orderuis" in st, "state-fails", str(st)[:200])
    log = st["trades"].to_dict(orient="records") if len(st["trades"]) else []
    # 1. shape: ids consecutive, legs numbered 0.., then the aggregate, uid unique
    uids = [x["uid"] for x in log]
    ctx.check("log-shape", len(set(uids)) == len(uids), "uid-not-unique", f"{uids}")
    trades, cur = [], []
    for x in log:
        cur.append(x)
        if x["aggr"]:
            trades.append(cur); cur = []
    ctx.check("log-shape", cur == [], "log-without-aggregate", f"{[x['uid'] for x in cur]}")
    ctx.check("log-shape", len(trades) == len(returned) == w.sim.numtrades, "log-count", f"{len(trades)} logged, {len(returned)} made, numtrades {w.sim.numtrades}")
    for n, (t, ret) in enumerate(zip(trades, returned)):
        legs, a = t[:-1], t[-1]
        ctx.check("log-shape", a["id"] == n and a["uid"] == str(n) and a["subid"] == "A", "aggregate-id", f"{a['uid']} {a['id']} {a['subid']} at position {n}")
        for k, x in enumerate(legs):
            ctx.check("log-shape", x["id"] == n and x["subid"] == k and x["uid"] == f"{n}.{k}", "leg-id", f"{x['uid']} {x['id']} {x['subid']} at {n}.{k}")
            ctx.check("log-shape", x["nroutes"] == 1, "leg-nroutes", f"{x['nroutes']}")
            ctx.check("log-shape", (x["exec"], x["tkn1"], x["tkn2"], x["pair"], x["p_unit"]) == (a["exec"], a["tkn1"], a["tkn2"], a["pair"], a["p_unit"])
                      and x["limitfail"] == a["limitfail"], "leg-vs-aggregate", f"{x} vs {a}")
        ctx.check("log-shape", a["nroutes"] == len(legs), "aggregate-nroutes", f"{a['nroutes']} vs {len(legs)}")
        rix = a["routeix"] if isinstance(a["routeix"], list) else ast.literal_eval(str(a["routeix"]))
        ctx.check("log-shape", list(rix) == [x["routeix"] for x in legs], "aggregate-routes", f"{rix}")
        ctx.close("log-shape", a["amt1"], sum(x["amt1"] for x in legs), "aggregate-sum", 1e-9, 1e-10, "amt1")
        ctx.close("log-shape", a["amt2"], sum(x["amt2"] for x in legs), "aggregate-sum", 1e-9, 1e-10, "amt2")
        # 2. the log is what the trade call returned
        r = ret["trades"].to_dict(orient="records")
        ctx.check("log=returned", str(r) == str(t), "log-differs-from-result", f"trade {n}: {str(t)[:300]} vs returned {str(r)[:300]}")
    # 3. replay
    bal = {}
    yint = {}
    pend = sorted(created.items())
    for n, t in enumerate(trades + [None]):
        for i, (when, m) in list(pend):
            if when == n:
                bal[i], yint[i] = m.y, m.yint
        for i, when in deleted_at.items():
            if when == n:
                bal.pop(i, None); yint.pop(i, None)
        if t is None: break
        if not t[-1]["exec"]: continue
        for x in t[:-1]:
            i = int(x["routeix"])
            ctx.check("replay", i in bal, "log-names-missing-order", f"trade {n} executed on order {i} which did not exist")
            bal[i] -= D(x["amt1"])
            l = created[i][1].lid
            if l != i:
                bal[l] += D(x["amt2"])
                yint[l] = max(yint[l], bal[l])
    rows = st["orders"].to_dict(orient="records") if len(st["orders"]) else []
    ctx.check("replay", sorted(r["id"] for r in rows) == sorted(bal), "replay-orders", f"{sorted(r['id'] for r in rows)} vs {sorted(bal)}")
    liq = {}
    for r in rows:
        i = r["id"]
        ctx.close("replay", r["y"], bal[i], "replay-holdings", 1e-9, 1e-9 * (1 + float(yint[i])), f"order {i}: published holdings vs replayed log")
        ctx.close("replay", r["y_int"], yint[i], "replay-capacity", 1e-9, 1e-9 * (1 + float(yint[i])), f"order {i}: published capacity vs replayed log")
        ui = st["orderuis"][i]
        ctx.close("replay", ui.y, r["y"], "orderui-holdings", 1e-9, 1e-12, f"curve object {i}")
        ctx.close("replay", ui.yint, r["y_int"], "orderui-capacity", 1e-9, 1e-12, f"curve object {i}")
        ctx.check("replay", ui.tkn == r["tkn"] and ui.id == i, "orderui-identity", f"{ui.tkn} {ui.id}")
        d = liq.setdefault(r["pair"], {})
        d[r["tkn"]] = d.get(r["tkn"], 0) + float(bal[i])
    # 4. liquidity
    got = w.sim.liquidity()
    if rows:
        ctx.check("liquidity", {p: set(v) for p, v in got.items()} == {p: set(v) for p, v in liq.items()}, "liquidity-keys", f"{got} vs {liq}")
        for p in liq:
            for t in liq[p]:
                ctx.close("liquidity", got[p][t], liq[p][t], "liquidity", 1e-8, 1e-8, f"{p} {t}")
        df = w.sim.liquidity(w.sim.ASDF)
        for (p, t), v in df["y"].to_dict().items():
            ctx.close("liquidity", v, liq[p][t], "liquidity", 1e-8, 1e-8, f"{p} {t} (table)")
        # 5. state per pair
        ps = sorted(liq)
        p = ctx.rng.choice(ps)
        sub = w.sim.state(p, inclhistory=False)
        ctx.check("filter", sorted(sub["orders"]["id"]) == sorted(r["id"] for r in rows if r["pair"] == p), "state-filter", f"state({p})")
        ctx.check("filter", sub["trades"] is False, "state-history", "history included although excluded")
        sub = w.sim.state(ps[:2])
        ctx.check("filter", sorted(sub["orders"]["id"]) == sorted(r["id"] for r in rows if r["pair"] in ps[:2]), "state-filter", f"state({ps[:2]})")
    return len(trades)


def history(ctx):
    rng = ctx.rng
    mm = rng.choice(["exact", "exact", "fast", "alpha"])
    pairs = rng.sample(PAIRS, rng.choice([1, 2, 2]))
    if rng.random() < 0.2: MID[("WETH", "USDC")] = 2000; pairs = [("ETH", "USDC"), ("WETH", "USDC")]     # one name contains the other
    w = World(ctx, mm)
    created, deleted, returned = {}, {}, []

    def add():
        i, j = w.random_strategy(pairs=pairs)
        for k in (i, j): created[k] = (len(returned), w.model[k].copy())
    for _ in range(crowd(rng, 1, 4)): add()
    for _ in range(rng.randint(3, 8)):
        k = rng.random()
        if k < 0.12: add()
        elif k < 0.2 and w.model:
            i = rng.choice(sorted(w.model)); l = w.model[i].lid
            w.sim.delete_order(i)
            for x in {i, l}: w.model.pop(x, None); deleted[x] = len(returned)
        else:
            tr = random_trade(ctx, w, pairs)
            if not tr: continue
            kw = dict(threshold_orders=100) if mm == "alpha" else {}
            kk = rng.random()
            if kk < 0.2: kw["execute"] = False
            elif kk < 0.4: kw["limit_price"] = MID[(tr["base"], tr["quote"])] * rng.choice([0.5, 0.9, 1.1, 2])
            elif kk < 0.5: tr["amt"] *= 1e8
            elif kk < 0.6: kw["pair"] = f"{tr['quote']}/{tr['base']}"
            r = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], **kw)
            if r["success"]:
                returned.append(r)
                ctx.check("log-shape", r["is_by_target"] == tr["by_target"] and r["tkn_sold"] == tr["out"], "result-fields", f"{r['is_by_target']} {r['tkn_sold']} for {tr}")
            w.sync()
        ctx.cover(mm, "ops")
    n = offline(ctx, w, created, deleted, returned)
    ctx.run(ctx.trail, n > 1)
    ctx.sample(ctx.trail[:8])


def d_empty(ctx):
    w = World(ctx, "exact", pair="ETH/USDC")
    st = w.sim.state()
    ctx.check("log-shape", len(st["orders"]) == 0 and len(st["trades"]) == 0 and len(st["orderuis"]) == 0, "empty-state", str(st))
    ctx.check("liquidity", w.sim.liquidity() is None, "empty-liquidity", str(w.sim.liquidity()))
    ctx.run("empty")


def d_partial_true(ctx):
    for mm in ("exact", "fast", "alpha"):
        for bt in (True, False):
            w = World(ctx, mm, pair="ETH/USDC")
            w.add_strategy("ETH", 10, 2000, 3000, base="ETH", quote="USDC", single=True)
            r = w.trade(bt, "ETH" if bt else "USDC", 12 if bt else 40000, "ETH", "USDC", support_partial=True)
            if not r["success"]: continue
            ctx.check("partial-flag", w.routes(r)[1][0]["partial"] == True, "partial-not-flagged", f"{mm} {bt}")
            ctx.run(("partial", mm, bt))


def d_partial_false(ctx):
    """a completely filled trade should not be recorded as partial"""
    w = World(ctx, "exact", pair="ETH/USDC")
    w.add_strategy("ETH", 10, 2000, 3000, base="ETH", quote="USDC", single=True)
    r = w.trade(True, "ETH", 1, "ETH", "USDC")
    a = w.routes(r)[1][0]
    ctx.check("partial-flag", not (a["partial"] == True and a["amt1"] == 1), "partial-flag-set-on-complete-fill", f"asked for 1 ETH, got {a['amt1']}, partial={a['partial']}")
    ctx.run("partial-false")


DIRECTED = [("empty", d_empty), ("partial_true", d_partial_true), ("partial_false", d_partial_false)]
CASES = [("history", history, 170, 2200)]
