"""encoding of orders for the contract and the SDK"""
import sys, math, json, copy
from fractions import Fraction as Fr
from decimal import Decimal as D, getcontext, localcontext
from vlib.core import REPO, close
from vlib.cpclib import quiet, sig
sys.path.insert(0, REPO + "/benchmark")
from core.trade import impl
from carbon import CarbonPair, CarbonOrderUI as O, CarbonSimulatorUI
from carbon.sdk import CarbonSDK, Tokens
from carbon.sdk.carbonsdk import EncodedOrder as E

PID = "P16"
ONE = 2 ** 48
RULE = ("orders over token pairs with 2 to 18 decimals, prices over 24 orders of magnitude, ranges from a single price to 1:1000, any fill, encoded by the SDK classes, by the order objects and by "
        "the contract's own code; strategy records with numbers or BigNumbers, tickers or addresses in any case, either token order, empty orders; distinct by parameters; non-trivial unless empty")
ASSUME = ["the budgets of a strategy record are capacities (as the repository's tests have it)", "rates have to fit: sqrt(price) above 2^-40"]
REQUIRED = ["float", "rate", "encode", "marginal", "decoded", "contract", "order", "trade", "ints", "record", "linked", "simulator", "refused", "raw"]


def exact_rate(p):
    """floor(sqrt(p) * 2^48) for a float p, exactly"""
    f = Fr(p); return math.isqrt((f.numerator << 96) // f.denominator)


def near(got, exact, bits=46):
    """an encoded rate may not improve, and keeps `bits` bits"""
    return exact - (exact >> bits) - 2 <= got <= exact + (exact >> 51) + 1


def floats(ctx):
    rng = ctx.rng
    for _ in range(30):
        n = rng.choice([0, 1, ONE - 1, ONE, ONE + 1, rng.getrandbits(48), rng.getrandbits(rng.randint(1, 140)), (1 << rng.randint(0, 140)) + rng.choice([-1, 0, 1])])
        n = max(n, 0)
        c = E.encodeFloat(n); d = E.decodeFloat(c)
        L = max(n.bit_length() - 48, 0)
        ctx.check("float", d == (n >> L) << L, "truncate", f"{n} -> {c} -> {d}")
        ctx.check("float", c == impl.encodeFloat(n) and d == impl.decodeFloat(c) and E.encodeFloat(d) == c, "canonical", f"{n}")
        ctx.check("float", E.decode(c) == d / ONE and E.decode(str(c)) == d / ONE and E.bitLength(n) == n.bit_length(), "decode", f"{n}")
        p = sig(rng, 1e-22, 1e22); r = E.encodeRate(p)
        ctx.check("rate", near(r, exact_rate(p)) and r.bit_length() - (r & -r).bit_length() + 1 <= 48, "rate", f"{p}: {r} exact {exact_rate(p)}")
        ctx.run(("float", n), n > 1)
    ctx.check("rate", E.encodeRate(0) == 0, "zero", "")


def encode(ctx):
    rng = ctx.rng
    lo = sig(rng, 1e-20, 1e20); w = rng.choice([0, 1e-9, 1e-4, 0.1, 3, 1000]); hi = lo * (1 + w * rng.uniform(0.1, 1))
    y = rng.choice([0, 1, rng.getrandbits(20) + 1, rng.getrandbits(64) + 1, rng.getrandbits(100) + 1])
    mode = rng.choice(["full", "z", "marg", "both"])
    ctx.log(mode, y, hi, lo)
    L, H = exact_rate(lo), exact_rate(hi)
    kw = {}
    if mode in ("z", "both"): kw["z"] = y + rng.choice([0, 1, y, rng.getrandbits(40)])
    if mode in ("marg", "both"): kw["p_marg"] = rng.choice([hi, hi * 1.5, lo + (hi - lo) * rng.random(), lo + (hi - lo) * 1e-3, lo, lo * 0.9])
    tk = rng.choice([None, "0xabc"])
    if mode == "both":
        try: E.encode(y, hi, lo, token=tk, **kw); ctx.check("refused", False, "both", "")
        except ValueError: ctx.ev("refused")
        return ctx.cover("both")
    try: e = E.encode(y, hi, lo, token=tk, **kw)
    except ValueError:
        pm = kw.get("p_marg")
        ctx.check("marginal", pm is not None and exact_rate(pm) - L <= (L >> 46) + 2, "refused", f"{kw} {lo} {hi}")
        ctx.cover("encode", "bottom"); ctx.run((y, hi, lo, tuple(kw.items())), False); return
    ctx.check("encode", e.token == (tk or "TKN") and e.y == y and type(e.y) is int and type(e.z) is int, "fields", f"{e}")
    A, B = E.decodeFloat(e.A), E.decodeFloat(e.B)
    ctx.check("encode", near(B, L) and near(A + B, H, 45), "range", f"{e}: B {B} expected {L}, A+B {A + B} expected {H}")
    ctx.check("encode", e["y"] == e.y and e["A"] == e.A and e.A_ == A / ONE and e.B_ == B / ONE, "decode", "")
    ctx.check("decoded", close(e.p_end, (B / ONE) ** 2, 1e-12, 0) and close(e.p_start, ((A + B) / ONE) ** 2, 1e-12, 0), "prices", f"{e.p_start} {e.p_end}")
    d = e.decoded; ctx.check("decoded", (d.y, d.z, d.A, d.B) == (e.y, e.z, e.A_, e.B_), "object", "")
    e2 = E.encode_yzAB(d.y, d.z, d.A, d.B, token=e.token)
    ctx.check("decoded", e2 == e, "inverse", f"{e2} {e}")
    if mode == "full": ctx.check("encode", e.z == y, "capacity", "")
    if mode == "z": ctx.check("encode", e.z == kw["z"], "capacity", "")
    if e.y == e.z: ctx.check("marginal", e.p_marg == e.p_start, "full", "")
    elif e.y == 0: ctx.check("marginal", e.p_marg == e.p_end, "empty", "")
    else:
        try: ctx.close("marginal", e.p_marg, ((B + A * Fr(e.y, e.z)) / ONE) ** 2, "partial", 1e-9, 0)
        except NotImplementedError: ctx.ev("marginal")
    if mode == "marg" and y:
        pm = min(kw["p_marg"], hi); M = exact_rate(pm)
        ctx.check("marginal", e.z >= y, "capacity", f"z {e.z} below y {y}")
        got = B + A * Fr(e.y, e.z)
        unit = (H >> 45) + 4
        # z is a whole number, so the price it implies is only so precise
        slack = unit * 2 + (Fr(A) * y / (Fr(e.z) * e.z)) + (unit * unit * 4 // max(M - L, 1))
        ctx.check("marginal", abs(got - M) <= slack, "price", f"marginal rate {float(got)}, wanted {M} +- {float(slack)}")
        if M - L > unit * 4:
            o = dict(liquidity=str(y), lowestRate=repr(lo), highestRate=repr(hi), marginalRate=repr(pm))
            c = impl.encodeOrder(o)
            ctx.check("contract", c["y"] == e.y and abs(c["z"] - e.z) <= 2 + Fr(e.z) * unit * 4 / (M - L) and abs(impl.decodeFloat(c["B"]) - B) <= unit and abs(impl.decodeFloat(c["A"]) - A) <= unit, "encode", f"{c} {e}")
    if e.p_end > 0: ctx.check("encode", e.token in e.descr and f"{1 / e.p_start}" in e.descr, "descr", e.descr)
    ctx.cover("encode", mode, w, y.bit_length() // 32); ctx.run((mode, y, hi, lo, tuple(kw.items())), y > 0)


def rand_ui(rng, dec=True):
    b, q = rng.sample([t for t in ("ETH", "USDC", "WBTC", "BNT", "GUSD", "CEL", "LINK")], 2)
    P = CarbonPair(tknb=b, tknq=q)
    db, dq = Tokens[b].d, Tokens[q].d
    if dec: P = P.set_decimals(db, dq)
    p = sig(rng, 1e-4, 1e5); w = rng.choice([1e-6, 1e-3, 0.1, 2, 100]); p2 = p * (1 + w * rng.uniform(0.1, 1))
    tkn = rng.choice([b, q]); yint = sig(rng, 1e-2, 1e7); y = yint * rng.choice([1, 1, 0, rng.random(), 1e-3])
    return O.from_prices(P, tkn, *rng.sample([p, p2], 2), yint, y), (b, q, db, dq, p, p2, tkn, yint, y, w)


def order(ctx):
    """the integers for the contract describe the same order"""
    rng = ctx.rng
    o, (b, q, db, dq, p, p2, tkn, yint, y, w) = quiet(rand_ui, rng)
    decy, decx = (db, dq) if tkn == b else (dq, db)
    sx = rng.choice([48, 48, 40, 32, 64])
    ctx.log(o.pair, tkn, p, p2, yint, y, sx)
    f0 = (o.B, o.S, o.yint, o.y)
    r = o.yzABS(sx, verbose=False) if rng.random() < 0.8 else quiet(o.yzABS, sx=sx, verbose=True)
    ctx.check("ints", all(type(v) is int for v in r.astuple) and r.astuple == (r.y, r.z, r.A, r.B, r.S) and r.asdict == dict(zip("yzABS", r.astuple)) and r.S == r.scaling_factor == 2 ** sx, "types", f"{r}")
    ctx.check("ints", (r.A_scaled, r.B_scaled, r.A_unscaled, r.B_unscaled) == (r.A, r.B, r.A / r.S, r.B / r.S), "aliases", "")
    ctx.check("ints", abs(r.y - Fr(y) * 10 ** decy) <= 1 + abs(r.y) * Fr(1, 2 ** 51) and abs(r.z - Fr(yint) * 10 ** decy) <= 1 + r.z * Fr(1, 2 ** 51), "amounts", f"{r.y} {r.z} for {y} {yint} ({decy})")
    # the range, in token wei
    raw = sorted((1 / p, 1 / p2) if tkn == b else (p, p2))
    fac = 10 ** (decy - decx)
    with localcontext() as c:
        c.prec = 60
        lo, hi = [(D(v) * (D(10) ** (decy - decx))).sqrt() * 2 ** sx for v in raw]
    ctx.check("order", abs(D(r.B) - lo) <= 1 + lo * D("4e-15") and abs(D(r.A + r.B) - hi) <= 2 + hi * D("4e-15"), "range", f"B {r.B} expected {lo}, A+B {r.A + r.B} expected {hi}")
    ctx.check("order", r.B <= lo * (1 + D("4e-15")) and r.A <= hi - lo + hi * D("4e-15"), "better-price", f"B {r.B} of {lo}, A {r.A} of {hi - lo}")
    ctx.check("order", (o.B, o.S, o.yint, o.y) == f0, "changed", "")
    # amounts that can be represented are represented exactly
    kz = rng.randrange(1, 10 ** rng.choice([3, 8, 12])); ky = rng.randint(0, kz)
    r2 = quiet(O.from_prices, o.pair, tkn, p, p2, kz / 10 ** decy, ky / 10 ** decy).yzABS(sx)
    ctx.check("ints", (r2.y, r2.z) == (ky, kz), "whole-amounts", f"{r2.y} {r2.z} expected {ky} {kz} ({decy})")
    if sx == 48 and r.z > 0:
        e = E.encode_yzAB(r.y, r.z, r.A_unscaled, r.B_unscaled, token=tkn)
        A, B = E.decodeFloat(e.A), E.decodeFloat(e.B)
        ctx.check("order", e.y == r.y and e.z == r.z and near(A, r.A) and near(B, r.B), "encoded", f"{e} {r}")
        # what the contract pays for this order is what the order object says
        Bu = r.B; prec = Fr(4, max(Bu, 1)) + Fr(1, 2 ** 40)
        if r.y > 10 ** 4 and prec < Fr(1, 10 ** 6):
            m = o.xint if hasattr(o, "xint") else None
            dyw = max(int(r.y * rng.choice([0.1, 0.5, 0.99])), 1)
            dy = dyw / 10 ** decy
            dx = o.dxfromdy_f(dy)
            enc = dict(y=e.y, z=e.z, A=e.A, B=e.B)
            got = impl.tradeByTargetAmount(dyw, enc)
            want = Fr(abs(dx)) * 10 ** decx
            ctx.check("trade", got == impl.MAX_UINT128 or abs(got - want) <= 4 + want * (prec * 8 + Fr(1, 10 ** 8) + Fr(8, r.y) * (1 + Fr(A, max(B, 1)))), "target", f"{dyw}: contract {got}, order {float(want)}")
            dxw = int(want * Fr(rng.choice([1, 3, 9]), 10))
            if dxw > 10:
                dy = o.dyfromdx_f(dxw / 10 ** decx); got = impl.tradeBySourceAmount(dxw, enc); want = Fr(abs(dy)) * 10 ** decy
                ctx.check("trade", abs(got - want) <= 4 + want * (prec * 8 + Fr(1, 10 ** 8) + Fr(2, dxw) + Fr(8, r.y) * (1 + Fr(A, max(B, 1)))), "source", f"{dxw}: contract {got}, order {float(want)}")
    p0 = CarbonPair(o.pair.slashpair); o2 = O.from_prices(p0, tkn, p, p2, yint, y)
    try: o2.yzABS(sx); ctx.check("refused", False, "nodecimals", "")
    except ValueError: ctx.ev("refused")
    ctx.cover("order", tkn == b, sx, w, decy - decx); ctx.run((b, q, tkn, p, p2, yint, y, sx), y > 0)


def bn(rng, n, style): return {"type": "BigNumber", "hex": hex(n)} if style == "bn" or style == "mix" and rng.random() < 0.5 else n


def check_addr(a, rng): return rng.choice([a, "0x" + a[2:].upper(), "0x" + "".join(rng.choice([c.upper(), c]) for c in a[2:])])


def frozen(x): return json.dumps(x, sort_keys=True, default=repr)


def record(ctx):
    """strategies as the SDK returns them"""
    rng = ctx.rng
    b, q = rng.sample(["ETH", "USDC", "WBTC", "BNT", "GUSD", "CEL", "LINK", "DAI"], 2)
    names = rng.choice(["ticker", "ticker", "addr", "addr", "unknown"])
    db, dq = Tokens[b].d, Tokens[q].d
    p0 = sig(rng, 1e-3, 1e5); W = lambda: 1 + rng.choice([1e-4, 0.02, 0.5, 3]) * rng.uniform(0.1, 1)
    bl = p0; bh = bl * W(); sl = bh * W(); sh = sl * W()
    prices = [float("%.9g" % v) for v in (bl, bh, sl, sh)]
    bl, bh, sl, sh = prices
    style = rng.choice(["int", "bn", "mix"])
    load = {}
    enc, bud = {}, {}
    for k, dec, r_lo, r_hi in (("base", db, (1 / D(sh)) * D(10) ** (db - dq), (1 / D(sl)) * D(10) ** (db - dq)), ("quote", dq, D(bl) * D(10) ** (dq - db), D(bh) * D(10) ** (dq - db))):
        z = int(sig(rng, 1, 1e6) * 10 ** dec) if rng.random() > 0.12 else 0
        y = int(z * Fr(rng.choice([1, 1, 0, rng.random(), 1e-3])))
        L, H = impl.encodeRate(r_lo), impl.encodeRate(r_hi)
        enc[k] = dict(y=y, z=z, A=impl.encodeFloat(H - L), B=impl.encodeFloat(L)); load[k] = Fr(y, z) if z else Fr(0); bud[k] = str(D(z) / D(10) ** dec)
    swap = rng.random() < 0.3
    if names == "ticker": B0, Q0 = rng.choice([(b, q), (b.lower(), q)]); B1, Q1 = b, q; nb, nq = b, q
    elif names == "addr":
        B0, Q0 = (check_addr(Tokens[t].a, rng) for t in (b, q)); B1, Q1 = (check_addr(Tokens[t].a, rng) for t in (b, q)); nb, nq = b, q
    else: B0 = B1 = "0x" + "%040x" % rng.getrandbits(150); Q0 = Q1 = "0x" + "%040x" % rng.getrandbits(150); nb, nq = "TKNB", "TKNQ"
    sid = rng.choice([rng.randint(0, 500), rng.getrandbits(128), rng.getrandbits(256)])
    o0, o1 = ({k: bn(rng, v, style) for k, v in enc[x].items()} for x in (("quote", "base") if swap else ("base", "quote")))
    t0, t1 = (Q1, B1) if swap else (B1, Q1)
    num = lambda v: rng.choice([repr, lambda z: str(D(z))])(v)
    s = dict(id=bn(rng, sid, style), baseToken=B0, quoteToken=Q0, buyPriceLow=num(bl), buyPriceHigh=num(bh), buyBudget=bud["quote"], sellPriceLow=num(sl), sellPriceHigh=num(sh), sellBudget=bud["base"],
             encoded=dict(id=bn(rng, sid, style), token0=t0, token1=t1, order0=o0, order1=o1))
    nsd = rng.choice([None, None, 6, 12])
    ctx.log(names, style, swap, nsd, prices, bud, {k: float(v) for k, v in load.items()})
    f0 = frozen(s)
    src = s
    if names != "ticker" and not swap and rng.random() < 0.5:
        # through the client's own objects
        sdk = CarbonSDK(Tokens=Tokens, disclaimer=False, verbose=False)
        ref = sdk.reformatStrategy(copy.deepcopy(s), nsd=None)
        st = CarbonSDK.Strategy.from_sdk(ref)
        ctx.check("raw", (st.sid, st["id"], st.encoded.sid, st.encoded["id"]) == (sid,) * 4 and (st.baseTokenName, st.quoteTokenName) == ((nb, nq) if names == "addr" else (B0.lower(), Q0.lower())), "names", f"{st}")
        ctx.check("raw", [st.buyPriceLow, st.buyPriceHigh, st.sellPriceLow, st.sellPriceHigh] == prices and st.baseToken == B0.lower() and st.quoteToken == Q0.lower() and st["sellBudget"] == float(bud["base"]), "fields", f"{st}")
        ctx.check("raw", all(getattr(st.encoded, "order%d" % i)[k] == enc[x][k] for i, x in enumerate(("base", "quote")) for k in "yzAB") and st.encoded.token0 == t0 and st.encoded.token1 == t1, "encoded", f"{st.encoded}")
        e0, e1 = st.encoded.order0, st.encoded.order1
        ctx.check("raw", all(abs(v ** .5 - float(r) ** .5) <= 4 / ONE + float(r) ** .5 * 1e-12 for v, r in ((e1.p_start, D(bh) * D(10) ** (dq - db)), (e1.p_end, D(bl) * D(10) ** (dq - db)), (e0.p_start, D(10) ** (db - dq) / D(sl)), (e0.p_end, D(10) ** (db - dq) / D(sh)))), "prices", f"{e0} {e1}")
        g0 = frozen(st.encoded.raw)
        j = json.loads(st.encoded.raw_json)
        ctx.check("raw", frozen(st.encoded.raw) == g0, "raw:changed", f"{st.encoded.raw} was {g0}")
        ctx.check("raw", j["id"] == str(sid) and j["token0"] == t0 and all(j["order%d" % i][k] == str(enc[x][k]) for i, x in enumerate(("base", "quote")) for k in "yzAB"), "raw:json", f"{j}")
        ctx.check("raw", json.loads(st.encoded.raw_json) == j, "raw:again", "")
        ds = st.descr; ctx.check("raw", len(ds) == 2 and f"{sl}..{sh}" in ds[0] and f"{bh}..{bl}" in ds[1], "descr", f"{ds}")
        if e0.p_end > 0: ctx.check("raw", f"{1 / e0.p_start}..{1 / e0.p_end}" in st.encoded.descr[0] and f"{e1.p_start}..{e1.p_end}" in st.encoded.descr[1], "descr:encoded", f"{st.encoded.descr}")
        src = st
    buy, sell = quiet(O.from_SDK, src, nsd) if nsd is not None or rng.random() < 0.5 else quiet(O.from_SDK, src)
    ctx.check("record", frozen(s) == f0, "changed", "")
    eps = 1e-9 if nsd is None else 10. ** (1 - nsd)
    ctx.check("linked", buy.linked is sell and sell.linked is buy and buy.id == f"{sid}-b" and sell.id == f"{sid}-s" and buy.lid == sell.id, "link", f"{buy} {sell}")
    ctx.check("record", buy.pair.slashpair == sell.pair.slashpair and {buy.tkn, sell.tkn} == {nb, nq} and sell.tkn == nb and sell.pair.has_basetoken == sell.pair.has_basetoken, "tokens", f"{buy.pair} {buy.tkn} {sell.tkn} for {nb} {nq}")
    ctx.check("record", sell.pair.has_basetoken(nb) and buy.pair.has_quotetoken(nq), "base", f"{sell.pair}")
    for o, (start, end), k in ((sell, (sl, sh), "base"), (buy, (bh, bl), "quote")):
        ctx.check("record", close(o.pa, start, eps, 0) and close(o.pb, end, eps, 0), "prices", f"{k}: {o.pa}..{o.pb} expected {start}..{end}")
        ctx.check("record", close(o.yint, bud[k], eps, 0) and close(o.y, float(bud[k]) * float(load[k]), eps, 1e-300), "amounts", f"{k}: {o.y} of {o.yint}, expected {float(load[k])} of {bud[k]}")
    # and into a simulator
    sim = CarbonSimulatorUI(raiseonerror=True)
    if rng.random() < 0.6 and all(enc[k]["y"] for k in enc):
        r = quiet(sim.add_fromsdk, src, *([] if nsd is None else [nsd]))
        ctx.check("simulator", r["success"] and len(sim.orders) == 2 and r["orderuis"] is not None, "added", f"{r}")
        os = {o.tkn: o for o in sim.orders.values()}
        for o, k, (start, end) in ((os[nb], "base", (sl, sh)), (os[nq], "quote", (bh, bl))):
            hi, lo = (float(o.p_high), float(o.p_low))
            wh, wl = (1 / start, 1 / end) if k == "base" else (start, end)
            ctx.check("simulator", close(o.y, float(bud[k]) * float(load[k]), max(eps, 1e-9), 0) and close(o.y_int, bud[k], max(eps, 1e-9), 0) and close(hi, wh, 4 * eps, 0) and close(lo, wl, 4 * eps, 0), "order", f"{k}: {o.y} {o.y_int} {hi} {lo} expected {bud[k]} {wh} {wl}")
        a, c = os[nb], os[nq]
        ctx.check("simulator", a.linked_to_id == c.id and c.linked_to_id == a.id, "linked", "")
    bad = copy.deepcopy(s); bad["encoded"][rng.choice(["token0", "token1"])] = "0x" + "12" * 20
    try: O.from_SDK(bad); ctx.check("refused", False, "tokens", "")
    except ValueError: ctx.ev("refused")
    ctx.cover("record", names, style, swap, nsd, *(float(load[k]) in (0, 1) for k in load)); ctx.run((names, style, swap, tuple(prices), tuple(bud.values())), True)


def helpers(ctx):
    rng = ctx.rng
    for _ in range(20):
        x = sig(rng, 1e-18, 1e18); n = rng.choice([1, 3, 6, 8, 12]); n_ = rng.choice([n, n])
        for f in (O.roundsd, CarbonSDK.roundsd):
            r = f(x, n_)
            ctx.check("float", abs(r - x) <= 0.5000001 * 10. ** (math.floor(math.log10(x)) + 1 - n) + 1e-15 * x, "roundsd", f"{x} to {n}: {r}")
            ctx.check("float", close(f(r, n), r, 1e-14, 0), "roundsd:again", f"{x} {n}: {r} {f(r, n)}")
        ctx.check("float", O.roundsd(x) == x and O.roundsd(0, n) == 0 and CarbonSDK.roundsd("x", n) == "x", "roundsd:none", "")
        i = rng.getrandbits(rng.randint(1, 200))
        for c in (O, CarbonSDK):
            ctx.check("float", c.bn2int({"type": "BigNumber", "hex": hex(i)}) == i and c.bn2int(i) == i and c.bn2intd({"a": {"type": "BigNumber", "hex": hex(i)}, "b": "q", "c": 1.5}) == {"a": i, "b": "q", "c": 1.5}, "bn", f"{i}")
        ctx.check("float", CarbonSDK.bn2int(CarbonSDK.int2bn(i)) == i, "bn:inverse", f"{i}")
        ctx.run(("h", x, n), True)


CASES = [("floats", floats, 40, 2000), ("encode", encode, 600, 40000), ("order", order, 400, 20000), ("record", record, 300, 12000), ("helpers", helpers, 20, 500)]
