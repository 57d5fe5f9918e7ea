from decimal import Decimal as D
from vlib.simlib import *

PID = "P03"
RULE = ("random books and trades: each is first quoted (dry) with every parameter combination, then executed from the same state and "
        "compared; interleaved with refused requests of every kind (unknown token or pair, too large, no eligible order, conflicting "
        "limits, missed limits, unsupported routing) and pure reads; distinct by event list; non-trivial if a quote was compared with an execution")
ASSUME = ["'unchanged' is exact equality of every order's holdings, capacity and links, and of the earlier trade records"]
REQUIRED = ["unchanged", "quote=exec", "log", "refused-log"]


def frozen(w):
    sim = w.sim
    orders = {i: (o.y, o.y_int, o.linked_to_id, o.tkn, bool(o.disabled), o.p_high, o.p_low) for i, o in sim.orders.items()}
    return orders


def same_orders(ctx, w, f0, what):
    f1 = frozen(w)
    ctx.check("unchanged", f1 == f0, "state-changed:" + what, f"{what} changed the book: " + str(
        {k: (f0.get(k), f1.get(k)) for k in set(f0) | set(f1) if f0.get(k) != f1.get(k)}))


def log_of(w):
    t = w.sim.state()["trades"]
    return [] if len(t) == 0 else t.to_dict(orient="records")


def legs(rt):
    return sorted((int(x["routeix"]), x["amt1"], x["amt2"], x["price"]) for x in rt)


def quote_then_exec(ctx, w, tr, kw):
    f0 = frozen(w)
    l0 = log_of(w) if ctx.rng.random() < 0.3 else None
    q = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False, **kw)
    same_orders(ctx, w, f0, "dryrun")
    if not q["success"]:
        e = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=True, **kw)
        ctx.check("quote=exec", not e["success"], "quote-refused-exec-accepted", f"{q['error']}")
        same_orders(ctx, w, f0, "refused")
        return
    rt, ag = w.routes(q)
    for x in rt + ag:
        ctx.check("log", not x["exec"], "dry-recorded-as-executed", str(x))
    if l0 is not None:
        l1 = log_of(w)
        ctx.check("log", len(l1) == len(l0) + len(rt) + 1 and [x["uid"] for x in l1[:len(l0)]] == [x["uid"] for x in l0], "log-rewritten",
                  f"{len(l0)} -> {len(l1)} records")
        ctx.check("log", str(l1[:len(l0)]) == str(l0), "log-rewritten", "earlier records changed")
    if ctx.rng.random() < 0.3:
        q2 = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=False, **kw)
        ctx.check("quote=exec", q2["success"] and legs(w.routes(q2)[0]) == legs(rt), "quote-not-repeatable", "the same quote twice differs")
        same_orders(ctx, w, f0, "dryrun")
    e = w.trade(tr["by_target"], tr["tkn"], tr["amt"], tr["base"], tr["quote"], execute=True, **kw)
    ctx.check("quote=exec", e["success"], "quoted-but-refused", f"{e.get('error')}")
    rt2, ag2 = w.routes(e)
    ctx.check("quote=exec", legs(rt) == legs(rt2), "exec-differs-from-quote", f"{legs(rt)} vs {legs(rt2)}")
    ctx.check("quote=exec", ag[0]["amt1"] == ag2[0]["amt1"] and ag[0]["amt2"] == ag2[0]["amt2"], "exec-differs-from-quote",
              f"{ag[0]['amt1']},{ag[0]['amt2']} vs {ag2[0]['amt1']},{ag2[0]['amt2']}")
    limited = ag2[0]["limitfail"] == True
    for x in rt2 + ag2:
        ctx.check("log", bool(x["exec"]) == (not limited), "exec-flag", f"limitfail={limited} exec={x['exec']}")
    if limited:
        same_orders(ctx, w, f0, "limitfail")
        ctx.cover("limitfail")
    else:
        w.apply(e)
        w.compare("quote=exec", "exec-differs-from-quote")
        w.sync()
        ctx.cover("executed", w.mm, "t" if tr["by_target"] else "s", *sorted(kw))


def bad_requests(ctx, w, base, quote):
    """all of these must be refused without a trace"""
    rng = ctx.rng
    inn, out = rng.choice([(base, quote), (quote, base)])
    sim = w.sim
    L = [("unknown token", lambda: sim.amm_buys("XYZ", 1, pair=f"{base}/{quote}")),
         ("unknown token", lambda: sim.amm_sells("XYZ", 1, pair=f"{base}/{quote}")),
         ("unknown pair", lambda: sim.amm_sells(base, 1, pair=f"{base}/XYZ")),
         ("bad pair", lambda: sim.amm_sells(base, 1, pair=f"{base}{quote}")),
         ("too much out", lambda: sim.amm_sells(out, 1e15, pair=f"{base}/{quote}")),
         ("too much in", lambda: sim.amm_buys(inn, 1e17, pair=f"{base}/{quote}")),
         ("no orders", lambda: sim.amm_sells(out, 0.01, pair=f"{base}/{quote}", use_positions=[])),
         ("no such orders", lambda: sim.amm_buys(inn, 0.01, pair=f"{base}/{quote}", use_positions=[98765])),
         ("two limits", lambda: sim.amm_sells(out, 0.01, pair=f"{base}/{quote}", limit_price=1, limit_amt=1)),
         ("routing across pairs", lambda: sim.amm_sells(out, 0.01, pair=f"{base}/{quote}", inpair=False)),
         ("zero limit", lambda: sim.amm_buys(inn, 0.01, pair=f"{base}/{quote}", limit_amt=0)),
         ("not a number", lambda: sim.amm_buys(inn, "lots", pair=f"{base}/{quote}"))]
    name, f = rng.choice(L)
    f0, n0 = frozen(w), len(w.sim.trades)
    raised = False
    old = sim.raiseonerror
    sim.raiseonerror = rng.random() < 0.3
    was = sim.raiseonerror
    try:
        r = f()
    except Exception as e:
        raised = True
        r = {"success": False, "error": str(e)}
    sim.raiseonerror = old
    ctx.log("bad", name, raised, r.get("error"))
    ctx.check("refused-log", not r["success"], "bad-request-accepted:" + name, f"{name} accepted")
    ctx.check("refused-log", raised == was or not was, "error-not-raised", f"{name}: raiseonerror set but nothing raised")
    ctx.check("refused-log", not raised or was, "error-raised", f"{name}: raised although raiseonerror is off: {r.get('error')}")
    ctx.check("refused-log", len(w.sim.trades) == n0, "refused-but-logged:" + name, f"{name} left {len(w.sim.trades)-n0} records")
    same_orders(ctx, w, f0, name)
    ctx.cover("bad", name)


def history(mm):
    def run(ctx):
        rng = ctx.rng
        pairs = [rng.choice(PAIRS)]
        base, quote = pairs[0]
        w = World(ctx, mm)
        for _ in range(crowd(rng, 1, 5)):
            w.random_strategy(pairs=pairs)
        n = 0
        for _ in range(rng.randint(2, 5)):
            k = rng.random()
            if k < 0.6:
                tr = random_trade(ctx, w, pairs, frac=rng.choice([None, None, None, 1.5]))
                if not tr: continue
                kw = dict(threshold_orders=rng.choice([1, 2, 100])) if mm == "alpha" else {}
                if rng.random() < 0.3:
                    kw["support_partial"] = True
                if rng.random() < 0.3:
                    ids = sorted(w.model)
                    kw["use_positions"] = rng.sample(ids, rng.randint(1, len(ids)))
                if rng.random() < 0.35:
                    mid = MID[(base, quote)]
                    kw["limit_price"] = mid * rng.choice([0.5, 0.8, 0.97, 1, 1.03, 1.2, 2])
                if rng.random() < 0.2: kw["pair"] = f"{quote}/{base}"; kw.pop("limit_price", None)
                quote_then_exec(ctx, w, tr, kw)
                n += 1
            elif k < 0.9:
                bad_requests(ctx, w, base, quote)
            else:
                f0 = frozen(w)
                w.sim.state(); w.sim.liquidity(); repr(w.sim); w.sim.state(inclhistory=False)
                same_orders(ctx, w, f0, "read")
        ctx.run(ctx.trail, n > 0)
        ctx.sample(ctx.trail[:6])
    return run


def d_limitfail(ctx):
    for mm in ("exact", "fast", "alpha"):
        w = World(ctx, mm, pair="ETH/USDC")
        w.add_strategy("ETH", 10, 2000, 2500, 10000, 1900, 1500, "ETH", "USDC")
        w.add_strategy("ETH", 10, 2100, 2600, 1000, 1800, 1500, "ETH", "USDC")
        for bt, tkn, amt, lim in ((True, "ETH", 12, 2000.1), (False, "ETH", 3, 1899.9), (False, "USDC", 12000, 2000.1), (True, "USDC", 5000, 1899.9)):
            out = tkn if bt else ("USDC" if tkn == "ETH" else "ETH")
            f0 = frozen(w)
            r = w.trade(bt, tkn, amt, "ETH", "USDC", limit_price=lim)
            if r["success"]:
                ctx.check("log", w.routes(r)[1][0]["limitfail"] == True, "limit-not-enforced", f"limit {lim} for {tkn} {amt}")
            same_orders(ctx, w, f0, "limitfail")
            quote_then_exec(ctx, w, dict(by_target=bt, tkn=tkn, amt=amt, base="ETH", quote="USDC"), {})
        ctx.run(("limitfail", mm))


def d_bad(ctx):
    w = World(ctx, "exact")
    w.add_strategy("ETH", 10, 2000, 2500, 10000, 1900, 1500, "ETH", "USDC")
    for _ in range(40):
        bad_requests(ctx, w, "ETH", "USDC")
    ctx.run("bad")


DIRECTED = [("limitfail", d_limitfail), ("bad", d_bad)]
CASES = [("hist_exact", history("exact"), 110, 1400), ("hist_fast", history("fast"), 40, 500), ("hist_alpha", history("alpha"), 30, 400)]
