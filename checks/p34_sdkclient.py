"""SDK client: requests sent to, and answers understood from, a server on the loopback interface that misbehaves on demand"""
import json, threading, copy, math, socket, time, io, contextlib
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from fractions import Fraction as Fr
from vlib.core import close
from vlib.cpclib import quiet, sig
from carbon import CarbonPair
from carbon.sdk import CarbonSDK, CarbonSDK0, SDKToken, TokenContainer, Tokens, NULTKN

PID = "P34"
RULE = ("client objects with every combination of defaults calling every method with random arguments against a server that records requests and answers truthfully, late, out of order, with an error status, "
        "an error object, garbage, a cut-off body or a dropped connection; distinct by method and arguments; non-trivial if parameters are transmitted")
ASSUME = ["the answer formats are those of resources/sdk/server", "a request that is never answered hangs (no timeouts in the client): not tested"]
REQUIRED = ["defaults", "request", "answer", "fault", "async", "result", "overrides", "market", "range", "depth", "trade", "compose", "strategy", "pairs", "token", "container", "erc20"]
COLLECT = 10
S = {}


class H(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"
    def log_message(self, *a): pass
    def do(self, method):
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n) if n else b""
        rec = dict(method=method, path=self.path, token=self.headers.get("token"), body=json.loads(body) if body else None, port=self.server.server_address[1])
        with S["lock"]: S["log"].append(rec)
        status, data, mode = S["reply"](rec)
        if mode == "drop": self.connection.shutdown(socket.SHUT_RDWR); return
        raw = data if isinstance(data, bytes) else json.dumps(data).encode()
        if mode == "slow": time.sleep(0.01)
        self.send_response(status); self.send_header("Content-Type", "application/json"); self.send_header("Content-Length", str(len(raw))); self.end_headers()
        self.wfile.write(raw[:len(raw) // 2] if mode == "cut" else raw)
    def do_GET(self): self.do("get")
    def do_POST(self): self.do("post")


class Srv(ThreadingHTTPServer):
    daemon_threads = True
    def handle_error(self, *a): pass


def server():
    if "srv" not in S:
        S.update(lock=threading.Lock(), log=[], reply=lambda r: (200, {}, None))
        S["srv"] = [Srv(("127.0.0.1", 0), H) for _ in range(2)]
        for s in S["srv"]: threading.Thread(target=s.serve_forever, args=(0.05,), daemon=True).start()
    S["log"].clear()
    return ["http://127.0.0.1:%d" % s.server_address[1] for s in S["srv"]]


def client(rng, T=Tokens, **kw):
    urls = server(); S["kw"] = kw
    u = urls[rng.randint(0, 1)]
    class C(CarbonSDK): URL = urls[1 - urls.index(u)]; DISCLAIMER = rng.random() < 0.3; VERBOSE = rng.random() < 0.5; RAISEONERROR = True; SYNCDEFAULT = False
    tok = rng.choice([None, "secret", "t-%d" % rng.getrandbits(20)])
    api = rng.choice([None, "api", "/api/", "x/y"])
    k = dict(url=rng.choice([u, u + "/"]), token=tok, apibase=api, verbose=rng.choice([True, False, None]), Tokens=T, disclaimer=rng.choice([None, False]), **kw)
    out = io.StringIO()
    with contextlib.redirect_stdout(out): c = C(**{a: b for a, b in k.items() if b is not None or rng.random() < 0.5})
    say = lambda x, d: d if x is None else x
    S["ctx"].check("defaults", (c.verbose, c.raiseonerror, c.syncdefault, c.disclaimer, c.Tokens is T) == (say(k["verbose"], C.VERBOSE), say(kw.get("raiseonerror"), True), say(kw.get("syncdefault"), False), say(k["disclaimer"], C.DISCLAIMER), True),
                   "defaults", f"{vars(c)} from {k} and {C.VERBOSE} {C.DISCLAIMER}")
    S["ctx"].check("defaults", bool(out.getvalue().strip()) == bool(c.disclaimer and C.DISCLAIMERTEXT.strip()), "disclaimer", f"printed {out.getvalue()!r}, disclaimer={c.disclaimer}")
    return c, dict(verbose=c.verbose, port=int(u.split(":")[-1]), token=tok or "carbontoken", base={None: "/api", "api": "/api", "/api/": "/api", "x/y": "/x/y"}[api])


def seen(ctx, ex, method, path, body, nth=-1, n=1):
    """the requests that arrived are exactly those expected"""
    L = list(S["log"])
    ctx.check("request", len(L) == n, "count", f"{len(L)} requests: {L} (expected {path})")
    r = L[nth]
    ctx.check("request", r["port"] == ex["port"], "server", f"request for {path} went to another server than the one configured")
    ctx.check("request", (r["method"], r["path"], r["token"]) == (method, path, ex["token"]), "head", f"{r} expected {method} {path} token {ex['token']}")
    ctx.check("request", r["body"] == body, f"body", f"{path}: {r['body']} expected {body}")


def addr(rng): return "0x%040x" % rng.getrandbits(160)


def num(rng): return rng.choice([rng.randint(0, 10 ** 6), sig(rng, 1e-9, 1e9), "1.25", rng.getrandbits(100)])


def ovr(rng):
    o = rng.choice([None, {}, {"gasLimit": 7}, {"value": "5"}, {"gasLimit": 0, "nonce": 3}])
    if o is None: return {}, None, {"gasLimit": 999999999}
    o = dict(o); w = dict(o)
    if not w.get("gasLimit"): w["gasLimit"] = 999999999
    return {"overrides": o}, o, w


def actions(rng):
    a = [{"id": rng.choice([rng.getrandbits(250), rng.getrandbits(100), rng.randint(0, 99), str(rng.getrandbits(30))]), "amount": rng.choice([rng.getrandbits(80), rng.randint(0, 9), "12"])} for _ in range(rng.randint(0, 3))]
    return a, [{k: str(v) for k, v in d.items()} for d in a]


def methods(rng):
    """name -> (call(sdk, sync), endpoint, expected parameters, kind): what each client method has to transmit"""
    s, t = addr(rng), addr(rng); am = num(rng); tgt = rng.choice([True, False, 0, 1])
    st = dict(sourceToken=s, targetToken=t)
    acts, actss = actions(rng)
    okw, o, ow = ovr(rng)
    d, m = rng.choice([(None, None), (rng.getrandbits(30), sig(rng, 1, 1e6))])
    P = [rng.choice([sig(rng, 1, 1e4), sig(rng, 1, 1e4), 0, 0.]) for _ in range(6)]
    names = ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")
    sid = rng.getrandbits(rng.randint(1, 128))
    upd = {k: v for k, v in zip(names, P) if rng.random() < 0.7}
    mp = {k: rng.choice([sig(rng, 1, 100), 0]) for k in ("buyMarginalPrice", "sellMarginalPrice") if rng.random() < 0.5}
    a, b = rng.randint(0, 99), rng.randint(0, 99)
    flt = rng.choice([None, [], ["x"]])
    rate = rng.choice([sig(rng, 1, 100), [sig(rng, 1, 100) for _ in range(3)]])
    M = {}
    for f in ("mul", "plus", "qmul", "qplus"): M[f] = (lambda k, y, f=f: getattr(k, f)(a, b, **y), f, dict(a=a, b=b), "both")
    M["getMatchActions"] = (lambda k, y: k.getMatchActions(am, tgt, acts, **y), "get_match_actions", dict(amountWei=str(am), tradeByTargetAmount=bool(tgt), orders=acts), "both")
    M["getMatchParams"] = (lambda k, y: k.getMatchParams(s, t, am, tgt, **y), "get_match_params", dict(st, amount=str(am), tradeByTargetAmount=bool(tgt)), "both")
    M["getTradeDataFromActions"] = (lambda k, y: k.getTradeDataFromActions(s, t, tgt, acts, **y), "get_trade_data_from_actions", dict(st, tradeByTargetAmount=bool(tgt), actionsWei=actss), "both")
    M["updateStrategy"] = (lambda k, y: k.updateStrategy(sid, "enc", s, t, k.StrategyUpdate(**upd, **mp), **okw, **y), "update_strategy",
                           dict(strategyId=str(sid), encoded="enc", baseToken=s, quoteToken=t, update={k: str(v) for k, v in upd.items()}, buyMarginalPrice=str(mp["buyMarginalPrice"]) if "buyMarginalPrice" in mp else None,
                                sellMarginalPrice=str(mp["sellMarginalPrice"]) if "sellMarginalPrice" in mp else None, overrides=ow), "both")
    M["hasLiquidityByPair"] = (lambda k, y: k.hasLiquidityByPair(s, t), "has_liquidity_by_pair", st, "sync")
    M["hasLiquidityByPair*"] = (lambda k, y: k.hasLiquidityByPair(pairs=[st, dict(sourceToken=t, targetToken=s)]), "has_liquidity_by_pair", dict(pairList=[st, dict(sourceToken=t, targetToken=s)]), "sync")
    for f, e in (("getLiquidityByPair", "get_liquidity_by_pair"), ("getMinRateByPair", "get_min_rate_by_pair"), ("getMaxRateByPair", "get_max_rate_by_pair")):
        M[f] = (lambda k, y, f=f: getattr(k, f)(s, t), e, st, "float")
    M["getRateLiquidityDepthByPair"] = (lambda k, y: k.getRateLiquidityDepthByPair(s, t, rate), "get_rate_liquidity_depth_by_pair", dict(st, rate=[str(r) for r in rate] if isinstance(rate, list) else str(rate)), "floats" if isinstance(rate, list) else "float")
    M["getUserStrategies"] = (lambda k, y: k.getUserStrategies(s), "get_user_strategies", dict(user=s), "sync")
    M["getTradeData"] = (lambda k, y: k.getTradeData(s, t, am, tgt, **({} if flt is None else dict(filter=flt))), "get_trade_data", dict(st, amount=str(am), tradeByTargetAmount=bool(tgt), filter=flt or []), "sync")
    M["composeTradeByTargetTransaction"] = (lambda k, y: k.composeTradeByTargetTransaction(s, t, acts, deadline=d, maxInput=m, **okw), "compose_trade_by_target_transaction",
                                            dict(st, tradeActions=actss, deadline=str(d or 2 ** 32 - 1), maxInput=str(m or 2 ** 128 - 1), overrides=ow), "sync")
    M["composeTradeBySourceTransaction"] = (lambda k, y: k.composeTradeBySourceTransaction(s, t, acts, deadline=d, minReturn=m, **okw), "compose_trade_by_source_transaction",
                                            dict(st, tradeActions=actss, deadline=str(d or 2 ** 32 - 1), minReturn=str(m or 1), overrides=ow), "sync")
    M["createBuySellStrategy"] = (lambda k, y: k.createBuySellStrategy(s, t, *P, **okw), "create_buy_sell_strategy", dict(baseToken=s, quoteToken=t, overrides=ow, **{k: str(v) for k, v in zip(names, P)}), "sync")
    M["deleteStrategy"] = (lambda k, y: k.deleteStrategy(sid, **okw), "delete_strategy", dict(strategyId=str(sid), overrides=ow), "sync")
    return M, o, acts


FAULTS = ["401", "500", "error", "garbage", "drop", "cut", "empty"]


def faulty(f):
    return {"401": (401, b"Unauthorized", None), "500": (500, {"success": True, "data": 1}, None), "error": (200, {"success": False, "error": "no way"}, None), "garbage": (200, b"<html>", None),
            "drop": (200, {}, "drop"), "cut": (200, {"success": True, "data": [1, 2, 3]}, "cut"), "empty": (200, b"", None)}[f]


def calls(ctx):
    rng = ctx.rng; S["ctx"] = ctx
    sd = rng.choice([None, True, False]); roe = rng.choice([None, True, False])
    sdk, ex = quiet(client, rng, **({} if sd is None else dict(syncdefault=sd)), **({} if roe is None else dict(raiseonerror=roe)))
    M, o, acts = methods(rng)
    for name in rng.sample(sorted(M), 7):
        f, ep, params, kind = M[name]
        S["log"].clear()
        y = rng.choice([{}, {}, dict(sync=True), dict(sync=False)])
        eff = y.get("sync", bool(sd)) if kind == "both" else True
        o0 = copy.deepcopy(o); a0 = copy.deepcopy(acts)
        ctx.log(name, y, sd, params)
        if kind == "float": data = rng.choice([repr(sig(rng, 1e-6, 1e6)), sig(rng, 1, 1e6), 3])
        elif kind == "floats": data = [rng.choice([repr(sig(rng, 1e-6, 1e6)), {"error": "x"}]) for _ in range(3)]
        else: data = rng.choice([True, False, [], {"a": [1]}, "0x1", 7, [1, 2]])
        reqid = rng.getrandbits(40)
        fault = rng.choice(FAULTS) if rng.random() < 0.35 else None
        slow = "slow" if rng.random() < 0.1 else None
        S["reply"] = (lambda r: faulty(fault)) if fault else (lambda r: (200, {"success": True, "data": data} if eff else {"success": True, "reqid": reqid}, slow))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out): got = f(sdk, y); err = None
        except Exception as e: got, err = None, e
        ctx.check("defaults", (ep in out.getvalue()) is bool(ex["verbose"]), "verbose", f"{name} printed {out.getvalue()!r} with verbose={ex['verbose']}")
        if fault != "drop" or True:
            seen(ctx, ex, "post", f"{ex['base']}/{'scall' if eff else 'ascall'}/{ep}", params)
        ctx.check("overrides", o == o0 and acts == a0, "overrides:changed", f"{name} changed its arguments: {o} was {o0}")
        if kind == "both" and eff:
            # the response object itself
            if fault in ("drop", "cut"): ctx.check("fault", err is None and (got.status_code == 900 and "error" in got.json() and got.json()["status_code"] == 900 if fault == "drop" else True), f"raw", f"{name} {fault}: {got} {err!r}")
            elif fault in ("401", "500"): ctx.check("fault", got.status_code == int(fault), "raw", f"{name}: {got} {err!r}")
            elif fault is None: ctx.check("answer", err is None and got.json() == {"success": True, "data": data}, "raw", f"{name}: {got} {err!r}")
        elif not eff:
            if fault is None: ctx.check("async", got == reqid and err is None, "reqid", f"{name}: {got} {err!r}")
            elif fault in ("error", "drop"):
                if roe in (None, True): ctx.check("fault", isinstance(err, sdk.AsyncAPICallError), "async:error", f"{name} {fault}: {got} {err!r}")
                else: ctx.check("fault", got is False and err is None, "async:false", f"{name} {fault}: {got} {err!r}")
            elif fault == "500": pass
            elif fault == "cut": ctx.check("fault", isinstance(err, (sdk.APICallError, sdk.AsyncAPICallError)) or got is False, "async:cut", f"{name}: {got} {err!r}")
            else: ctx.check("fault", isinstance(err, sdk.APICallError), "async:garbage", f"{name} {fault}: {got} {err!r}")
        else:
            if fault: ctx.check("fault", isinstance(err, RuntimeError), f"sync", f"{name} {fault}: {got!r} {err!r}")
            else:
                want = data if kind == "sync" else float(data) if kind == "float" else [None if isinstance(v, dict) else float(v) for v in data]
                ctx.check("answer", err is None and got == want and type(got) is type(want), "value", f"{name}: {got!r} expected {want!r} ({err!r})")
        ctx.cover(name, eff, fault); ctx.run((name, params, y, sd, fault), True)
    try: sdk.req0("/x", params={"a": 1}, method="get"); ctx.check("fault", False, "get:params", "")
    except ValueError: ctx.ev("fault")
    try: sdk.req0("/x", method="put"); ctx.check("fault", False, "method", "")
    except ValueError: ctx.ev("fault")
    try: sdk.call("x", params={"a": 1}, method="put", sync=rng.choice([True, False])); ctx.check("fault", False, "call:method", "")
    except ValueError: ctx.ev("fault")
    try: sdk.hasLiquidityByPair("a", "b", pairs=[]); ctx.check("fault", False, "both", "")
    except ValueError: ctx.ev("fault")


def history(ctx):
    """asynchronous requests: every result once it is there, and only the result of that very request"""
    rng = ctx.rng; S["ctx"] = ctx
    roe = rng.choice([True, False])
    sdk, ex = quiet(client, rng, raiseonerror=roe, syncdefault=False)
    jobs = {}           # reqid -> [state, value]
    nxt = [rng.randint(1, 10 ** 12)]
    def reply(r):
        p = r["path"][len(ex["base"]):]
        if p.startswith("/ascall/"):
            nxt[0] += rng.randint(1, 3); jobs[nxt[0]] = ["awaiting", {"func": p[8:], "a": r["body"]["a"], "b": r["body"]["b"], "result": r["body"]["a"] * r["body"]["b"]}]
            return 200, {"success": True, "reqid": nxt[0]}, None
        i = p[len("/result/"):]
        j = jobs.get(int(i)) if i.isdigit() else None
        if j is None: return 200, {"success": False, "error": f"unknown reqid {i}", "reqid": i, "awaiting": False}, None
        if j[0] == "awaiting": return 200, {"success": False, "error": "not ready", "reqid": i, "awaiting": True}, None
        return 200, {"success": True, "data": {"reqid": int(i), "result": j[1]}}, None
    S["reply"] = reply
    mine = {}
    for step in range(rng.randint(10, 40)):
        u = rng.random()
        if u < 0.3 or not mine:
            a, b = rng.randint(0, 999), rng.randint(0, 999)
            i = quiet(sdk.mul, a, b); ctx.check("async", i not in mine, "reqid:reused", ""); mine[i] = (a, b)
        elif u < 0.55:
            w = [i for i in jobs if jobs[i][0] == "awaiting"]
            if w: jobs[rng.choice(w)][0] = "done"
        elif u < 0.65:
            f = rng.choice(["401", "garbage", "drop", "cut"])
            S["reply"] = lambda r: faulty(f)
            try: quiet(sdk.result, rng.choice(list(mine))); ctx.check("result", False, "fault:accepted", f)
            except sdk.APICallError: ctx.ev("result")
            finally: S["reply"] = reply
        elif u < 0.75:
            i = nxt[0] + rng.randint(1, 9)
            try: r = quiet(sdk.result, i); ctx.check("result", not roe and r is False, "unknown", f"{r}")
            except sdk.UnknownReqIdError: ctx.check("result", roe, "unknown:raised", "")
        else:
            i = rng.choice(list(mine)); r = quiet(sdk.result, rng.choice([i, str(i)])); a, b = mine[i]
            want = True if jobs[i][0] == "awaiting" else {"func": "mul", "a": a, "b": b, "result": a * b}
            ctx.check("result", r == want and type(r) is type(want), "result", f"{i}: {r} expected {want}")
            ctx.check("request", S["log"][-1]["path"] == f"{ex['base']}/result/{i}" and S["log"][-1]["method"] == "get", "path", f"{S['log'][-1]}")
    ctx.cover("history", roe, min(len(mine), 8)); ctx.run(tuple(mine.items()), len(mine) > 1)


def container(rng, n=None):
    names = rng.sample(["AAA", "BBB", "CCC", "ETH", "USDC", "WBTC", "DDD", "EEE"], n or rng.randint(2, 6))
    return TokenContainer([SDKToken(t, addr(rng), rng.choice([0, 2, 6, 8, 18, 18])) for t in names], raiseonerror=rng.choice([None, True]))


def market(ctx):
    """what the m... methods say about a market"""
    rng = ctx.rng; S["ctx"] = ctx
    T = container(rng)
    sdk, ex = quiet(client, rng, T)
    toks = list(T); dirs = [(s, t) for s in toks for t in toks if s is not t]
    book = {}
    for s, t in dirs:
        if rng.random() < 0.75:
            lo = sig(rng, 1e-4, 1e4); book[s.a, t.a] = dict(liq=rng.choice([0., *[sig(rng, 1, 1e6)] * 5]), lo=lo, hi=lo * (1 + rng.random()))
    for s, t in list(book):
        # both sides start at the same price
        if rng.random() < 0.1 and s < t and (t, s) in book: book[s, t].update(lo=1., hi=4.); book[t, s].update(lo=0.125, hi=0.25)
    def depth(k, r):
        b = book[k]; return b["liq"] * (1 if r <= b["lo"] else 0 if r >= b["hi"] else (b["hi"] - r) / (b["hi"] - b["lo"]))
    unk = addr(rng)
    def reply(r):
        p, b = r["path"].split("/")[-1], r["body"]
        if p == "pairs": return 200, {"success": True, "data": [[s, t] for s, t in book] + [[unk, toks[0].a]]}, None
        if p == "has_liquidity_by_pair":
            if "pairList" in b: return 200, {"success": True, "data": [(x["sourceToken"], x["targetToken"]) in book for x in b["pairList"]]}, None
            return 200, {"success": True, "data": (b["sourceToken"], b["targetToken"]) in book}, None
        k = b["sourceToken"], b["targetToken"]
        if k not in book: return 200, {"success": False, "error": "no liquidity"}, None
        if p == "get_liquidity_by_pair": v = repr(book[k]["liq"])
        elif p == "get_min_rate_by_pair": v = repr(book[k]["lo"])
        elif p == "get_max_rate_by_pair": v = repr(book[k]["hi"])
        else: v = [repr(depth(k, float(x))) for x in b["rate"]] if isinstance(b["rate"], list) else repr(depth(k, float(b["rate"])))
        return 200, {"success": True, "data": v}, None
    S["reply"] = reply
    ctx.log([t.T for t in toks], len(book))
    bytk = {t.a: t for t in toks}
    # all pairs
    r = quiet(sdk.pairs); want = [[bytk[s], bytk[t]] for s, t in book]
    ctx.check("pairs", r[:-1] == want and r[-1] == [unk, toks[0]], "pairs", f"{r}")
    r, txt = quiet(sdk.pairs, inclstr=True)
    ctx.check("pairs", txt == ", ".join([f"{a.T}/{b.T}" for a, b in want] + [f"{unk}/{toks[0].T}"]), "string", f"{txt}")
    s0, _ = quiet(client, rng, None); ctx.check("pairs", quiet(s0.pairs) == [list(k) for k in book] + [[unk, toks[0].a]], "notokens", "")
    for f in (lambda: s0.mGetLiquidityByPair("ETH/USDC", "ETH"), lambda: s0.mGetUserStrategies("0x0") if False else s0.reformatStrategy({})):
        try: f(); ctx.check("pairs", False, "notokens:accepted", "")
        except ValueError: ctx.ev("pairs")
    for _ in range(6):
        s, t = rng.choice(dirs); k = (s.a, t.a)
        pr = rng.choice([f"{s.T}/{t.T}", f"{t.T}/{s.T}"]); P = CarbonPair(pr); isask = P.tknb == t.T
        arg = rng.choice([pr, P])
        ctx.check("market", quiet(sdk.mHasLiquidityByPair, arg, t.T) is (k in book), "has", f"{pr} {t.T}")
        if k not in book:
            for f in (lambda: sdk.mGetLiquidityByPair(arg, t.T), lambda: sdk.mGetRangeByPair(arg, t.T), lambda: sdk.mGetMarketByPair(arg), lambda: sdk.mGetRateLiquidityDepthByPair(1., arg, t.T)):
                try: quiet(f); ctx.check("fault", False, "market:accepted", "")
                except RuntimeError: ctx.ev("fault")
            continue
        b = book[k]; conv = (lambda v: 1 / v) if isask else (lambda v: v)
        l = quiet(sdk.mGetLiquidityByPair, arg, t.T)
        ctx.check("market", l.amount == b["liq"] and l.unit == l.AMMsells == t.T and l.bidAsk == ("ask" if isask else "bid") and l.pair.slashpair == pr and l.rate is None, "liquidity", f"{l}")
        g = quiet(sdk.mGetRangeByPair, arg, t.T)
        ctx.check("range", close(g.startRate, conv(b["hi"]), 1e-12, 0) and close(g.endRate, conv(b["lo"]), 1e-12, 0) and (g.AMMsells, g.AMMbuys, g.bidAsk, g.pair.slashpair) == (t.T, s.T, "ask" if isask else "bid", pr), "range", f"{g} expected {conv(b['hi'])}..{conv(b['lo'])}")
        ctx.check("range", g.inverted is isask, "inverted", f"{g}: raw rates are {t.T} per {s.T}")
        rates = [conv(b["lo"] + (b["hi"] - b["lo"]) * rng.uniform(-0.1, 1.1)) for _ in range(3)]
        d = quiet(sdk.mGetRateLiquidityDepthByPair, rates[0], arg, t.T)
        ctx.check("depth", close(d.amount, depth(k, conv(rates[0])), 1e-9, 1e-9 * b["liq"]) and d.rate == rates[0] and d.islist is False and d.inverted is isask and d.unit == t.T, "depth", f"{d}")
        d = quiet(sdk.mGetRateLiquidityDepthByPair, rates, arg, t.T)
        ctx.check("depth", len(d.amount) == 3 and all(close(x, depth(k, conv(y)), 1e-9, 1e-9 * b["liq"]) for x, y in zip(d.amount, rates)) and d.islist is True and d.rate == rates, "depth:list", f"{d}")
        if (t.a, s.a) in book:
            m = quiet(sdk.mGetMarketByPair, arg)
            ba, qa = T[P.tknb].a, T[P.tknq].a; B, A = book[ba, qa], book[qa, ba]
            ctx.check("market", m.pair == pr and all(close(x, y, 1e-12, 0) for x, y in zip((m.bestBid, m.lastBid, m.liqBid, m.bestAsk, m.lastAsk, m.liqAsk), (B["hi"], B["lo"], B["liq"], 1 / A["hi"], 1 / A["lo"], A["liq"]))), "market", f"{m}")
            ctx.check("market", m.inverted is (m.bestBid > m.bestAsk) and close(m.mid, (m.bestBid + m.bestAsk) / 2) and close(m.spread, m.bestAsk - m.bestBid, 1e-9, 1e-9 * m.mid) and close(m.spreadpc, (m.bestAsk - m.bestBid) / m.mid, 1e-9, 1e-9), "spread", f"{m}")
            q_, b_ = P.tknq, P.tknb
            ctx.check("market", (m.liqBidUnit, m.liqAskUnit, m.bidAMMSells, m.askAMMSells, m.bidTraderSells, m.askTraderSells) == (q_, b_, q_, b_, b_, q_) and m.price_convention == f"{q_} per {b_}" and m.cpair.slashpair == pr, "units", f"{m}")
            x = rng.random()
            ctx.check("market", close(m.ibid(x), m.bestBid + x * (m.lastBid - m.bestBid)) and close(m.iask(x), m.bestAsk + x * (m.lastAsk - m.bestAsk)) and close(m.iall(x), m.lastBid + x * (m.lastAsk - m.lastBid)), "interpolate", "")
        ctx.run((pr, t.T, b["liq"]), True)
    ps = [rng.choice(dirs) for _ in range(3)]; sl = [f"{a.T}/{b.T}" for a, b in ps]
    r = quiet(sdk.mHasLiquidityByPairs, rng.choice([", ".join(sl), sl, [CarbonPair(x) for x in sl], ",".join(sl)]))
    want = [x for p, (a, b) in zip(sl, ps) for x in ((p, b.T, (a.a, b.a) in book), (p, a.T, (b.a, a.a) in book))]
    ctx.check("market", [(x["pair"].slashpair, x["AMMsells"], x["hasLiquidity"]) for x in r] == want, "hasall", f"{r} expected {want}")
    ctx.cover("market", len(toks), len(book))


def trades(ctx):
    rng = ctx.rng; S["ctx"] = ctx
    T = container(rng)
    sdk, ex = quiet(client, rng, T)
    b, q = rng.sample(list(T), 2); P = CarbonPair(f"{b.T}/{q.T}"); arg = rng.choice([P, P.slashpair])
    side = rng.choice([sdk.BUY, sdk.SELL]); tk = rng.choice([b, q]); ot = q if tk is b else b
    src, trg = (tk, ot) if side == sdk.SELL else (ot, tk)
    am = sig(rng, 1e-3, 1e6); bt = side == sdk.BUY
    ids = [rng.getrandbits(128) for _ in range(rng.randint(1, 3))]
    bn = lambda v: {"type": "BigNumber", "hex": hex(v)}
    w = [(rng.getrandbits(90), rng.getrandbits(90)) for _ in ids]
    data = dict(tradeActions=[{"strategyId": bn(i), "amount": str(x) if rng.random() < 0 else bn(x)} for i, (x, y) in zip(ids, w)], actionsWei=[{"id": bn(i), "input": bn(x), "output": bn(y)} for i, (x, y) in zip(ids, w)],
                actionsTokenRes=[{"id": bn(i), "input": repr(x / 1e18), "output": repr(y / 1e6)} for i, (x, y) in zip(ids, w)], totalSourceAmount=repr(sig(rng, 1, 1e6)), totalTargetAmount=repr(sig(rng, 1, 1e6)), effectiveRate="1.5")
    S["reply"] = lambda r: (200, {"success": True, "data": data}, None)
    ctx.log(P, side, tk.T, am)
    t = quiet(sdk.mPrepareTrade, arg, side, tk.T, am)
    seen(ctx, ex, "post", f"{ex['base']}/scall/get_trade_data", dict(sourceToken=src.a, targetToken=trg.a, amount=str(am), tradeByTargetAmount=bt, filter=[]))
    ctx.check("trade", (t.pair, t.tkn, t.traderBuySell, t.amount, t.sourceToken, t.targetToken, t.tradeByTargetAmount) == (P.slashpair, tk.T, side, am, src, trg, bt), "trade", f"{t}")
    ctx.check("trade", t.tradeActions == [{"strategyId": i, "amount": x} for i, (x, y) in zip(ids, w)] and t.actionsWei == [{"id": i, "input": x, "output": y} for i, (x, y) in zip(ids, w)]
              and t.actionsTokenRes == [{"id": i, "input": x / 1e18, "output": y / 1e6} for i, (x, y) in zip(ids, w)], "actions", f"{t}")
    ctx.check("trade", t.tradeData == {k: float(data[k]) for k in ("totalSourceAmount", "totalTargetAmount", "effectiveRate")}, "data", f"{t.tradeData}")
    ctx.check("trade", list(t.cttkwargs) == ["sourceToken", "targetToken", "tradeActions", "tradeData", "tradeByTargetAmount"] and t.cttargs == tuple(t.cttkwargs.values()), "cttargs", "")
    dev = rng.choice([None, 0, 0.01, 0.5]); okw, o, ow = ovr(rng); o0 = copy.deepcopy(o)
    S["log"].clear(); S["reply"] = lambda r: (200, {"success": True, "data": {"to": "0x1", "data": "0x2"}}, None)
    tx = quiet(sdk.mComposeTradeTransaction, *t.cttargs, **({} if dev is None else dict(maxDeviationPc=dev)), **okw)
    ctx.check("compose", tx == {"to": "0x1", "data": "0x2"}, "answer", "")
    ctx.check("overrides", o == o0, "overrides:changed", f"{o} was {o0}")
    r = S["log"][-1]; body = dict(r["body"]); lim = float(body.pop("maxInput" if bt else "minReturn")); dv = 0.1 if dev is None else dev
    ctx.check("compose", len(S["log"]) == 1 and r["path"].endswith("compose_trade_by_target_transaction" if bt else "compose_trade_by_source_transaction"), "endpoint", r["path"])
    tot = float(data["totalSourceAmount"]) * (1 + dv) if bt else float(data["totalTargetAmount"]) * (1 - dv)
    ctx.check("compose", close(lim, tot, 1e-12, 0), "limit", f"{lim} expected {tot}")
    ctx.check("compose", body == dict(sourceToken=src.a, targetToken=trg.a, tradeActions=[{k: str(v) for k, v in x.items()} for x in t.tradeActions], deadline=str(2 ** 32 - 1), overrides=ow), "body", f"{body}")
    third = [x for x in T if x not in (b, q)]
    for f in (lambda: sdk.mPrepareTrade(arg, "x", tk.T, am), lambda: sdk.mPrepareTrade(arg, side, "ZZZ", am), lambda: sdk.mPrepareTrade(arg, side, tk.T, 0), lambda: sdk.mPrepareTrade(arg, side, tk.T, -1.)) + ((lambda: sdk.mPrepareTrade(arg, side, third[0].T, am),) if third else ()):
        n = len(S["log"])
        try: quiet(f); ctx.check("trade", False, "accepted", "")
        except ValueError: ctx.check("trade", len(S["log"]) == n, "refused:sent", "a refused trade was sent")
    # strategies
    p = sorted(sig(rng, 1, 1e4) for _ in range(4))
    if len(set(p)) < 4: return
    bl, bh, sl, sh = p; sa, ba = sig(rng, 1, 1e4), sig(rng, 1, 1e4)
    okw, o, ow = ovr(rng); okw = okw or dict(overrides=None)
    S["log"].clear()
    r1, r2 = (sl, sh) if rng.random() < 0.6 else (sh, sl); r3, r4 = (bh, bl) if rng.random() < 0.6 else (bl, bh)
    quiet(sdk.mCreateStrategy, arg, r1, r2, sa, r3, r4, ba, **okw)
    seen(ctx, ex, "post", f"{ex['base']}/scall/create_buy_sell_strategy", dict(baseToken=b.a, quoteToken=q.a, buyPriceLow=str(bl), buyPriceHigh=str(bh), buyBudget=str(ba), sellPriceLow=str(sl), sellPriceHigh=str(sh), sellBudget=str(sa), overrides=ow))
    ctx.ev("strategy"); n = len(S["log"])
    try: quiet(sdk.mCreateStrategy, arg, bl, bh, sa, sh, sl, ba, None); ctx.check("strategy", False, "overlap", "")
    except ValueError: ctx.check("strategy", len(S["log"]) == n, "overlap:sent", "")
    for a, c in ((bh, bh), (sl, sl), (sh, bl)):
        n = len(S["log"])
        try: quiet(sdk.mCreateStrategy, arg, a, max(a, sh) if a != sh else sl, sa, c, min(c, bl), ba, None); ok = True
        except ValueError: ok = False
        ctx.check("strategy", ok is (min(a, sl if a == sh else a) > c) and len(S["log"]) == n + ok, "start:equal", f"selling from {a}, buying from {c}: {'sent' if ok else 'refused'}")
    # strategies of a user
    def strat(i):
        e = lambda: dict(y=bn(rng.getrandbits(60)), z=bn(rng.getrandbits(70)), A=bn(rng.getrandbits(50)), B=bn(rng.getrandbits(50)))
        return dict(id=bn(i), baseToken=b.a, quoteToken=q.a, encoded=dict(id=bn(i), token0=b.a, token1=q.a, order0=e(), order1=e()), **{k: repr(sig(rng, 1e-3, 1e5) * (1 + 1e-12)) for k in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")})
    ss = [strat(rng.getrandbits(rng.choice([9, 60, 256]))) for _ in range(rng.randint(0, 3))]; keep = json.dumps(ss)
    S["reply"] = lambda r: (200, {"success": True, "data": ss}, None)
    nsd = rng.choice([{}, dict(nsd=True), dict(nsd=None), dict(nsd=4), dict(nsd=3), dict(nsd=11)])
    R = quiet(sdk.mGetUserStrategies, "0xuser", **nsd)
    k = nsd.get("nsd", 8); k = 8 if k is True else k
    if k: ctx.check("strategy", all(close(v, float("%.*g" % (k, v)), 1e-14, 0) for s in R for v in (getattr(s, f) for f in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")) if v < 10. ** (k + 1)), "digits", f"more than {k} digits: {R}")
    ctx.check("strategy", all(json.loads(s.encoded.raw_json)["id"] == str(int(x["id"]["hex"], 16)) for s, x in zip(R, ss)), "rawjson", f"{R}")
    ctx.check("strategy", len(R) == len(ss) and all(s.sid == int(x["id"]["hex"], 16) and all(close(getattr(s, f), float(x[f]), 1e-15 if k is None else 0.6 * 10. ** (1 - k), 0) for f in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget"))
              and (s.baseTokenName, s.quoteTokenName, s.baseToken, s.quoteToken) == (b.T, q.T, b.a, q.a) and all(getattr(s.encoded, "order%d" % j)[f] == int(x["encoded"]["order%d" % j][f]["hex"], 16) for j in (0, 1) for f in "yzAB") for s, x in zip(R, ss)), "user", f"{R}")
    ctx.check("strategy", json.dumps(ss) == keep, "changed", "")
    ctx.cover("trade", side, tk is b, dev); ctx.run((P.slashpair, side, tk.T, am), True)


def sundry(ctx):
    """the remaining endpoints; tokens and containers"""
    rng = ctx.rng; S["ctx"] = ctx
    T = container(rng)
    sdk, ex = quiet(client, rng, T)
    toks = rng.sample(list(T), 2); bal = [rng.getrandbits(70) for _ in toks]
    S["reply"] = lambda r: (200, {"success": True, "data": [{"type": "BigNumber", "hex": hex(v)} for v in bal]}, None)
    r = quiet(sdk.getERC20Balance, toks, "0xme"); seen(ctx, ex, "post", f"{ex['base']}/erc20/balance_of", dict(tokens=[t.a for t in toks], address="0xme"))
    ctx.check("erc20", list(r) == [t.T for t in toks] and all(close(r[t.T], Fr(v, 10 ** t.d), 1e-12, 0) for t, v in zip(toks, bal)), "balance", f"{r}")
    S["log"].clear(); S["reply"] = lambda r: (200, {"success": True, "data": [t.d for t in toks]}, None)
    r = quiet(sdk.getERC20Decimals, toks); seen(ctx, ex, "post", f"{ex['base']}/erc20/decimals", dict(tokens=[t.a for t in toks])); ctx.check("erc20", r == {t.T: t.d for t in toks}, "decimals", "")
    S["log"].clear(); S["reply"] = lambda r: (200, {"success": True, "data": ["S%d" % i for i in range(2)]}, None)
    plain = rng.random() < 0.5
    r = quiet(sdk.getERC20Symbol, [t.a for t in toks] if plain else toks); seen(ctx, ex, "post", f"{ex['base']}/erc20/symbol", dict(tokens=[t.a for t in toks]))
    ctx.check("erc20", r == {(t.a if plain else t.T): "S%d" % i for i, t in enumerate(toks)}, "symbol", f"{r}")
    for f in FAULTS:
        S["reply"] = lambda r: faulty(f)
        for g in (lambda: sdk.getERC20Balance(toks, "0x"), lambda: sdk.getERC20Decimals(toks), lambda: sdk.signsubmittx({})):
            try: quiet(g); ctx.check("fault", False, "erc20:accepted", f)
            except RuntimeError: ctx.ev("fault")
    S["log"].clear(); S["reply"] = lambda r: (200, {"success": True, "data": "0xw"}, None)
    ctx.check("answer", quiet(sdk.addr) == "0xw", "addr", ""); seen(ctx, ex, "get", f"{ex['base']}/addr", None)
    f = rng.choice(["error", "drop"]); S["reply"] = lambda r: faulty(f); ctx.check("fault", quiet(sdk.addr) is None, "addr:fault", f)
    S["log"].clear(); S["reply"] = lambda r: (200, {"version": "1"}, None)
    ctx.check("answer", quiet(sdk.version) == {"version": "1"}, "version", ""); seen(ctx, ex, "get", "/", None)
    S["log"].clear(); S["reply"] = lambda r: (200, {"success": True, "data": {"txReceipt": 1}}, None)
    sg = rng.choice([None, True, False]); tx = {"to": "0x1"}
    ctx.check("answer", quiet(sdk.signsubmittx, tx, *([] if sg is None else [sg])) == {"txReceipt": 1}, "sign", ""); seen(ctx, ex, "post", f"{ex['base']}/signsubmittx", {"tx": tx, "sign": sg is not False})
    # tokens
    for _ in range(10):
        d = rng.choice([None, 0, 2, 6, 8, 18]); nm = rng.choice(["abc", " Abc ", "ABC"]); a = addr(rng); A = rng.choice([a, " " + a.upper().replace("0X", "0x") + " "])
        t = SDKToken(nm, A, *([] if d is None else [rng.choice([d, str(d)])])); D = 18 if d is None else d
        ctx.check("token", (t.T, t.token, t.a, t.address, t.d, t.name, t.isnul) == ("ABC", "ABC", a, a, d, "ABC", False) and tuple(t) == ("ABC", a, d, "ABC") and SDKToken(*tuple(t)) == t and str(t) == f"ABC ({a})", "fields", f"{t!r}")
        w = rng.choice([0, 1, 29, rng.getrandbits(20), rng.getrandbits(50)])
        ctx.check("token", close(t.w2t(w), Fr(w, 10 ** D), 1e-15, 0), "w2t", f"{w} {D}: {t.w2t(w)}")
        ctx.check("token", t.t2w(t.w2t(w)) == w and type(t.t2w(t.w2t(w))) is int, "t2w", f"{w} of {D} decimals: {t.t2w(t.w2t(w))}")
        s = rng.randint(0, 10 ** 6) / 100
        if D >= 2: ctx.check("token", abs(t.t2w(s) - Fr(str(s)) * 10 ** D) <= Fr(s) * 10 ** D / 2 ** 52, "t2w:decimal", f"{s} with {D} decimals: {t.t2w(s)}")
        ctx.check("token", t == SDKToken("abc", a, d) and hash(t) == hash(SDKToken("abc", a, d)) and len({t, SDKToken("abc", a, d)}) == 1, "hash", "")
        ctx.run((nm, a, d, w), True)
    try: SDKToken("x", "0xzz"); ctx.check("token", False, "address", "")
    except ValueError: ctx.ev("token")
    # containers
    roe = rng.choice([None, True, False]); n = rng.randint(1, 6)
    names = rng.sample(["AAA", "BBB", "CCC", "ETH", "USDC", "WBTC", "DDD", "EEE"], n); ads = [addr(rng) for _ in names]; ds = [rng.choice([6, 8, 18]) for _ in names]
    how = rng.choice(["list", "csv", "tokens", "gen"]); kw = {} if roe is None else dict(raiseonerror=roe)
    if how == "list": C = TokenContainer.fromlist(list(zip(names, ads, ds)), **kw)
    elif how == "csv": C = TokenContainer.fromcsv("\n".join(f" {t.lower()} , {a}, {d} " for t, a, d in zip(names, ads, ds)) + "\n", **kw)
    elif how == "tokens": C = TokenContainer([SDKToken(*x) for x in zip(names, ads, ds)], **kw)
    else: C = TokenContainer((SDKToken(*x) for x in zip(names, ads, ds)), **kw)
    ctx.check("container", len(C) == n and [tuple(t)[:3] for t in C] == list(zip(names, ads, ds)) and str(C) == str(tuple(names)) and list(TokenContainer.fromlist(list(C))) == list(C), "all", f"{C}")
    C2 = rng.choice([copy.copy, copy.deepcopy])(C)
    for C_ in (C, C2):
        for t, a in zip(names, ads):
            x = C.byticker(t)
            ctx.check("container", x.a == a and all(y == x for y in (C_[t], C_[t.lower()], getattr(C_, t), getattr(C_, t.lower()), C_.byaddr(a), C_.byaddr(a.upper().replace("0X", "0x")), C_.byaddr1(a), C_(a), C_.restore(t), C_.restore(a), C_.restore(x))) and C_.byaddr1(a, tknonly=True) == t, "lookup", f"{t} {a}")
    ctx.check("container", C.containsall(set(names)) and C.containsall(set()) and not C.containsall({names[0], "QQQ"}), "containsall", "")
    bad = addr(rng)
    ctx.check("container", C(bad) == bad and C.byaddr1(bad, tknonly=True) == bad, "unknown:address", "")
    for f, arg in ((C.byticker, "QQQ"), (C.byaddr, bad)):
        ctx.check("container", f(arg, raiseonerror=False) is NULTKN and f(arg, raiseonerror=False, returnnultkn=False) is None and NULTKN.isnul, "unknown:null", "")
        try: r = f(arg); ctx.check("container", roe is False and r is NULTKN, "unknown:returned", f"{r}")
        except KeyError: ctx.check("container", roe is not False, "unknown:raised", "")
        try: f(arg, raiseonerror=True); ctx.check("container", False, "unknown:accepted", "")
        except KeyError: ctx.ev("container")
    ctx.check("container", C.restore(bad, raiseonerror=False) is None and C.restore("QQQ", raiseonerror=False) is None, "restore:unknown", "")
    for z in ("QQQ", bad):
        try: C.restore(z, raiseonerror=True); ctx.check("container", False, "restore:accepted", "")
        except ValueError: ctx.ev("container")
    i, j = rng.randrange(n), rng.randrange(n)
    dup = [SDKToken(*x) for x in zip(names, ads, ds)]
    if n > 1 and i != j:
        k = rng.choice(["ticker", "addr", "both"])
        if k in ("ticker", "both"): dup.append(SDKToken(names[i], addr(rng)))
        if k in ("addr", "both"): dup.append(SDKToken("NEW", ads[j]))
        try: TokenContainer(dup); ctx.check("container", False, "duplicate", f"{k}: {dup}")
        except ValueError: ctx.ev("container")
    ctx.cover("sundry", roe, how, n); ctx.run((tuple(names), tuple(ads)), True)


CASES = [("calls", calls, 120, 5000), ("history", history, 40, 1500), ("market", market, 40, 1500), ("trades", trades, 60, 2500), ("sundry", sundry, 60, 2500)]
