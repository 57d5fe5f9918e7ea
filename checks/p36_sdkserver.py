"""SDK server: the node server itself, run against a stand-in for the Carbon SDK that records every call and answers (or fails) when told to"""
import http.client, json, os, shutil, socket, subprocess, tempfile, threading, time
from vlib.core import close, ROOT, REPO
from vlib.cpclib import quiet, sig
from checks import p34_sdkclient as P34
from carbon.sdk import CarbonSDK, SDKToken

PID = "P36"
RULE = ("the server of resources/sdk/server started on loopback with a recording stand-in for the SDK; requests for every endpoint, from the Python client and raw, with right, wrong and missing tokens, with SDK calls that answer, reject, throw or settle much later in random order, "
        "from several threads and within one clock tick; distinct by request and answer; non-trivial if the SDK is reached")
ASSUME = ["express, body-parser, ethers and the Carbon SDK are stand-ins (the packages are not installed here); async route handlers that throw are unhandled rejections, as with express 4", "updateStrategy and getMatchActions are documented as not implemented"]
REQUIRED = ["auth", "reach", "args", "answer", "error", "alive", "reqid", "awaiting", "result", "unknown", "erc20", "sign", "client"]
COLLECT = 10
S = {}
SRC = os.path.join(REPO, "resources", "sdk", "server")


def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p


class Node:
    def __init__(self, token=None, wallet=None, clock=0):
        self.token, self.wallet = token or "carbontoken", wallet
        for _ in range(5):
            self.port, self.ctrl = free_port(), free_port()
            d = tempfile.mkdtemp(prefix="vnode")
            try:
                for f in os.listdir(SRC):
                    p = os.path.join(SRC, f)
                    if f.endswith(".mjs"): shutil.copy(p, d)
                    elif f == "lib": shutil.copytree(p, os.path.join(d, f))
                shutil.copytree(os.path.join(ROOT, "nodesrv"), os.path.join(d, "node_modules"))
                env = {k: v for k, v in os.environ.items() if not k.startswith("SDKSERVER")}
                env.update(CTRLPORT=str(self.ctrl), CLOCKSTEP=str(clock), SDKSERVER_RPCURL="http://rpc")
                if wallet: env["SDKSERVER_MEMONICPHRASE"] = wallet
                self.err = tempfile.TemporaryFile()
                self.p = subprocess.Popen(["node", "sdkserver.mjs", str(self.port)] + ([token] if token else []), cwd=d, env=env, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err)
                for _ in range(600):
                    if self.p.poll() is not None: break
                    try:
                        if self.raw("GET", "/", token=None)[0] == 200: return
                    except OSError: time.sleep(0.05)
            finally: shutil.rmtree(d, ignore_errors=True)
            self.stop()
            if "EADDRINUSE" not in self.errors(): break
    def alive(self): return self.p.poll() is None
    def errors(self):
        try: self.err.seek(0); return self.err.read().decode(errors="replace")[-700:]
        except ValueError: return ""
    def stop(self):
        if self.p.poll() is None: self.p.kill()
        self.p.wait()
    def http(self, port, method, path, body=None, hdr=None, timeout=20):
        c = http.client.HTTPConnection("127.0.0.1", port, timeout=timeout)
        try:
            c.request(method, path, body=body, headers=hdr or {}); r = c.getresponse(); raw = r.read()
            try: return r.status, json.loads(raw)
            except ValueError: return r.status, raw.decode()
        finally: c.close()
    def raw(self, method, path, body=None, token=True, raw=None):
        h = {"content-type": "application/json"}
        if token is True: h["token"] = self.token
        elif token is not None: h["token"] = token
        return self.http(self.port, method, path, raw if raw is not None else json.dumps(body) if body is not None else None, h)
    def plan(self, p): self.http(self.ctrl, "POST", "/plan", json.dumps(p))
    def calls(self, n=0): return self.http(self.ctrl, "POST", "/calls", json.dumps({"from": n}))[1]
    def settle(self, k, **kw): return self.http(self.ctrl, "POST", "/settle", json.dumps(dict(k=k, **kw)))[1]["ok"]


def node(ctx, key):
    """a running server with this (token, wallet, clock); kept between the cases of a worker"""
    n = S.get(key)
    if n is None or not n.alive():
        n = S[key] = Node(*key)
        ctx.check("alive", n.alive(), "start", f"the server does not start (token, wallet, clock: {key}): {n.errors()}")
    n.plan({}); return n, len(n.calls())


def living(ctx, n, after):
    if n.alive():
        try: r = n.raw("GET", "/", token=None)
        except OSError as e: r = e
    else: r = "exited: " + n.errors()
    ctx.check("alive", isinstance(r, tuple) and r[0] == 200 and "version" in r[1], "died", f"after {after}: {r}")


CONFIGS = [(None, None, 0), ("tok-1", "test test junk", 0), ("tok-1", "test test junk", 200), ("Secret", None, 1000)]
addr = P34.addr
CS = lambda a: "0x" + a[2:].upper()          # what the stand-in for getAddress makes of an address
SYNC = ("hasLiquidityByPair", "pairs")


def endpoints(rng):
    """endpoint -> (body, [(sdk function, arguments)], list?)"""
    s, t, u = addr(rng), addr(rng), addr(rng)
    num = lambda: str(rng.randint(1, 10 ** 9))
    acts = [{"id": num(), "amount": num()} for _ in range(rng.choice([0, 1, 2, 3, 20]))]
    o = rng.choice([{"gasLimit": 5}, {"gasLimit": 999999999, "value": "3"}, {}, {"value": "1", "nonce": 0}, {"gasPrice": "1", "from": u}])
    flag = rng.random() < 0.5
    st = dict(sourceToken=s, targetToken=t); ST = [CS(s), CS(t)]
    am, dl, mx = num(), num(), num(); sid = num(); fl = rng.choice([[], ["x"]])
    names = ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget"); P = [num() for _ in names]
    rates = [num() for _ in range(rng.choice([1, 2, 3, 4, 4, 12, 40]))]; rates = list(dict.fromkeys(rates))
    pl = [(addr(rng), addr(rng)) for _ in range(rng.choice([1, 2, 3, 3, 15]))]
    E = {"pairs": ({}, [("pairs", [])], False),
         "has_liquidity_by_pair": (st, [("hasLiquidityByPair", ST)], False),
         "has_liquidity_by_pair*": (dict(pairList=[dict(sourceToken=a, targetToken=b) for a, b in pl]), [("hasLiquidityByPair", [CS(a), CS(b)]) for a, b in pl], True),
         "get_liquidity_by_pair": (st, [("getLiquidityByPair", ST)], False),
         "get_user_strategies": (dict(user=u), [("getUserStrategies", [u])], False),
         "get_match_params": (dict(st, amount=am, tradeByTargetAmount=flag), [("getMatchParams", ST + [am, flag])], False),
         "get_trade_data": (dict(st, amount=am, tradeByTargetAmount=flag, filter=fl), [("getTradeData", ST + [am, flag, fl])], False),
         "get_trade_data_from_actions": (dict(st, tradeByTargetAmount=flag, actionsWei=acts), [("getTradeDataFromActions", ST + [flag, acts])], False),
         "compose_trade_by_target_transaction": (dict(st, tradeActions=acts, deadline=dl, maxInput=mx, overrides=o), [("composeTradeByTargetTransaction", ST + [acts, dl, mx, o])], False),
         "compose_trade_by_source_transaction": (dict(st, tradeActions=acts, deadline=dl, minReturn=mx, overrides=o), [("composeTradeBySourceTransaction", ST + [acts, dl, mx, o])], False),
         "create_buy_sell_strategy": (dict(baseToken=s, quoteToken=t, overrides=o, **dict(zip(names, P))), [("createBuySellStrategy", ST + P + [o])], False),
         "delete_strategy": (dict(strategyId=sid, overrides=o), [("deleteStrategy", [sid, o])], False),
         "get_rate_liquidity_depth_by_pair": (dict(st, rate=rates[0]), [("getRateLiquidityDepthByPair", ST + [rates[0]])], False),
         "get_rate_liquidity_depth_by_pair*": (dict(st, rate=rates), [("getRateLiquidityDepthByPair", ST + [r]) for r in rates], True),
         "get_min_rate_by_pair": (st, [("getMinRateByPair", ST)], False),
         "get_max_rate_by_pair": (st, [("getMaxRateByPair", ST)], False)}
    return E


def reached(ctx, n, k, want, what):
    L = n.calls(k)
    ctx.check("reach", [c[0] for c in L] == [w[0] for w in want], "function", f"{what}: called {L}, expected {want}")
    ctx.check("args", [list(c) for c in L] == [list(w) for w in want], "arguments", f"{what}: called {L}, expected {want}")


def value(rng): return rng.choice([True, False, 0, 7, "1.5", "", [], {"a": [1, {"b": None}]}, None, ["x"], "0x" + "f" * 40])


def wrong(rng, n): return rng.choice([None, "", "x", n.token + "x", n.token[:-1], n.token.swapcase(), "undefined", "null"])


def routes(ctx):
    """every endpoint: the right SDK call, its answer or its error, and nothing at all without the token"""
    rng = ctx.rng
    n, k = node(ctx, rng.choice(CONFIGS))
    E = endpoints(rng)
    for ep in rng.sample(sorted(E), 8):
        body, want, lst = E[ep]; path = "/api/scall/" + ep.rstrip("*")
        ctx.log(ep, body)
        # without the token
        for m, p, b in ((("POST", path, body), ("POST", "/api/ascall/" + ep.rstrip("*"), body), ("POST", "/api/erc20/symbol", dict(tokens=[addr(rng)])), ("POST", "/api/signsubmittx", dict(tx={"to": 1}, sign=True)), ("GET", "/api/addr", None), ("GET", "/api/result/1", None)) if rng.random() < 0.3 else (("POST", path, body),)):
            w = wrong(rng, n); st, r = n.raw(m, p, b, token=w)
            ctx.check("auth", st == 401 and "success" not in str(r), "accepted", f"{p} with token {w!r} (is {n.token!r}): {st} {r}")
        ctx.check("auth", n.calls(k) == [], "sdk:called", f"the SDK was called by a request without token: {n.calls(k)}")
        mode = rng.choice(["value", "value", "reject", "throw", "later", "echo"])
        f = want[0][0]; v = value(rng); msg = "reason %d" % rng.randint(0, 99)
        n.plan({f: dict(mode="value", echo=True) if mode == "echo" else dict(mode=mode, value=msg if mode in ("reject", "throw") else v)})
        st, r = n.raw("POST", path, body)
        if mode in ("reject", "throw"):
            L = n.calls(k); ctx.check("reach", L and list(L[0]) == list(want[0]), "function", f"{ep}: {L}")
            ctx.check("error", st == 200 and r.get("success") is False and msg in r.get("error", "") and "data" not in r, "error", f"{ep} failing with {msg!r}: {st} {r}")
        else:
            reached(ctx, n, k, want, ep)
            one = [dict(call=w[0], args=w[1]) if mode == "echo" else v for w in want]
            ctx.check("answer", st == 200 and r == {"success": True, "data": one if lst else one[0]} if (one[0] is not None or lst) else st == 200 and r.get("success") is True and r.get("data") is None, "answer", f"{ep}: {st} {r} expected {one if lst else one[0]}")
        living(ctx, n, (ep, mode)); k = len(n.calls())
        ctx.cover(ep, mode); ctx.run((ep, str(body), mode, str(v)), True)
    # several answers, one of which fails
    rates = list(dict.fromkeys(str(rng.randint(1, 99)) for _ in range(rng.randint(2, 5)))); bad = set(rng.sample(rates, rng.randint(0, len(rates))))
    s, t = addr(rng), addr(rng); key = lambda r: json.dumps([CS(s), CS(t), r], separators=(",", ":"))
    n.plan({"getRateLiquidityDepthByPair": dict(bykey={key(r): dict(mode="reject", value="bad " + r) if r in bad else dict(mode=rng.choice(["value", "later"]), ms=rng.randint(1, 9), value="v" + r) for r in rates})})
    st, r = n.raw("POST", "/api/scall/get_rate_liquidity_depth_by_pair", dict(sourceToken=s, targetToken=t, rate=rates))
    if bad: ctx.check("error", st == 200 and r["success"] is False and r["error"] in ["bad " + b for b in bad], "list:error", f"{r}")
    else: ctx.check("answer", r == {"success": True, "data": ["v" + x for x in rates]}, "list", f"{r}")
    living(ctx, n, ("rates", rates, bad))


def hostile(ctx):
    """requests that cannot be answered are refused with a reason, and the server answers the next one"""
    rng = ctx.rng
    n, k = node(ctx, rng.choice(CONFIGS))
    E = endpoints(rng)
    for _ in range(6):
        kind = rng.choice(["method", "method:async", "address", "json", "empty", "path", "erc20:reject", "erc20:address", "erc20:body", "erc20:function", "erc20:approve", "sign:reject", "unknown:result", "sync:throw", "async:reject", "array", "nobody"])
        ctx.log(kind); tk = addr(rng); w = None
        if kind.startswith("method"):
            f = rng.choice(["nope", "getTradeData", "start_data_sync", "constructor", "__proto__", "toString"])
            st, r = n.raw("POST", "/api/%s/%s" % ("ascall" if "async" in kind else "scall", f), {}); w = "unknown method"
        elif kind == "address":
            ep = rng.choice([e for e, x in E.items() if "sourceToken" in x[0]]); b = dict(E[ep][0]); b[rng.choice(["sourceToken", "targetToken"])] = rng.choice(["", "0x12", "ETH", None, 7])
            st, r = n.raw("POST", "/api/%s/%s" % (rng.choice(["scall", "ascall"]), ep.rstrip("*")), b); w = "address"
        elif kind == "json":
            st, r = n.raw("POST", "/api/scall/pairs", raw=rng.choice(['{"a":', "nope", "{]"])); ctx.check("error", st == 400, "json", f"{st} {r}"); w = False
        elif kind in ("empty", "nobody"):
            ep = rng.choice(["get_match_params", "create_buy_sell_strategy", "get_min_rate_by_pair", "get_trade_data"]); st, r = n.raw("POST", "/api/scall/" + ep, {} if kind == "empty" else None); w = "address"
        elif kind == "path":
            st, r = n.raw(rng.choice(["GET", "POST"]), rng.choice(["/api", "/api/scall", "/api/x/y", "/api/scall/a/b"]), None); ctx.check("error", st == 404, "path", f"{st} {r}"); w = False
        elif kind == "erc20:reject":
            f = rng.choice(["decimals", "symbol", "balance_of"]); g = dict(decimals="decimals", symbol="symbol", balance_of="balanceOf")[f]; m = rng.randint(1, 3); ts = [addr(rng) for _ in range(m)]
            args = lambda a: json.dumps([a] + (["0xme"] if f == "balance_of" else []), separators=(",", ":"))
            badt = rng.sample(ts, rng.randint(1, m))
            n.plan({"erc20." + g: dict(bykey={args(a): dict(mode=rng.choice(["reject", "throw", "reject"]), value="revert") if a in badt else dict(mode="value", value=1) for a in ts})})
            st, r = n.raw("POST", "/api/erc20/" + f, dict(tokens=ts, address="0xme")); w = "revert"
        elif kind == "erc20:address":
            ts = [addr(rng), "ETH"]; rng.shuffle(ts); n.plan({"erc20.symbol": dict(mode=rng.choice(["value", "reject"]), value="x")}); st, r = n.raw("POST", "/api/erc20/symbol", dict(tokens=ts)); w = "address"
        elif kind == "erc20:body": st, r = n.raw("POST", "/api/erc20/symbol", {}); w = ""
        elif kind == "erc20:function": st, r = n.raw("POST", "/api/erc20/nope", dict(tokens=[tk])); w = False
        elif kind == "erc20:approve": st, r = n.raw("POST", "/api/erc20/approve", dict(tokens=[tk], to=tk, amount="1")); w = ""
        elif kind == "sign:reject":
            n.plan({"sendTransaction": dict(mode=rng.choice(["reject", "throw"]), value="underpriced")}); st, r = n.raw("POST", "/api/signsubmittx", dict(tx={"to": tk}, sign=rng.choice([True, False]))); w = "underpriced" if n.wallet else "submitting transaction failed"
        elif kind == "unknown:result":
            i = rng.choice(["0", "17", "x", str(2 ** 60)]); st, r = n.raw("GET", "/api/result/" + i)
            ctx.check("unknown", st == 200 and r["success"] is False and r["awaiting"] is False and r["reqid"] == i, "unknown", f"{r}"); w = False
        elif kind == "sync:throw": n.plan({"pairs": dict(mode="throw", value="not synced")}); st, r = n.raw("POST", "/api/%s/pairs" % rng.choice(["scall", "ascall"]), {}); w = "not synced"
        elif kind == "async:reject":
            n.plan({"getMinRateByPair": dict(mode="reject", value="no liq")}); st, r = n.raw("POST", "/api/ascall/get_min_rate_by_pair", dict(sourceToken=tk, targetToken=addr(rng)))
            ctx.check("result", r["success"] is True, "accepted", f"{r}"); i = r["reqid"]
            for _ in range(400):
                st, r = n.raw("GET", f"/api/result/{i}")
                if not r.get("awaiting"): break
                time.sleep(0.005)
            ctx.check("result", r.get("success") is True and r["data"] == {"reqid": i, "result": {"error": "no liq"}}, "rejected", f"{r}"); w = False
        elif kind == "array":
            rates = [str(x) for x in range(rng.randint(1, 4))]; n.plan({"getRateLiquidityDepthByPair": dict(mode="reject", value="boom")}); st, r = n.raw("POST", "/api/scall/get_rate_liquidity_depth_by_pair", dict(sourceToken=tk, targetToken=addr(rng), rate=rates)); w = "boom"
        if w is not False: ctx.check("error", st == 200 and isinstance(r, dict) and r.get("success") is False and w in r.get("error", ""), kind, f"{st} {r} expected a refusal naming {w!r}")
        living(ctx, n, kind); ctx.cover("hostile", kind); ctx.run((kind, tk), True)
    time.sleep(0.02); living(ctx, n, "the case")


def asynchronous(ctx):
    """requests from several threads whose SDK calls settle later and in another order: every one gets exactly its own result, and only then"""
    rng = ctx.rng
    n, k = node(ctx, rng.choice(CONFIGS))
    LI = ("getMinRateByPair", "getMaxRateByPair", "getLiquidityByPair", "getUserStrategies", "getRateLiquidityDepthByPair")
    n.plan({f: dict(mode="defer") for f in LI})
    T = rng.randint(1, 4); per = rng.randint(1, 4)
    reqs = []; lock = threading.Lock()
    work = []
    for _ in range(T):
        jobs = []
        for _ in range(per):
            f = rng.choice(LI); s, t = addr(rng), addr(rng)
            if f == "getUserStrategies": jobs.append(("get_user_strategies", dict(user=s), [(f, [s])]))
            elif f == "getRateLiquidityDepthByPair":
                r = [str(i) for i in range(rng.randint(1, 3))]; jobs.append(("get_rate_liquidity_depth_by_pair", dict(sourceToken=s, targetToken=t, rate=r), [(f, [CS(s), CS(t), x]) for x in r]))
            else: jobs.append(({"getMinRateByPair": "get_min_rate_by_pair", "getMaxRateByPair": "get_max_rate_by_pair", "getLiquidityByPair": "get_liquidity_by_pair"}[f], dict(sourceToken=s, targetToken=t), [(f, [CS(s), CS(t)])]))
        work.append(jobs)
    def submit(jobs):
        for ep, body, want in jobs:
            st, r = n.raw("POST", "/api/ascall/" + ep, body)
            with lock: reqs.append([r, want, None])
    th = [threading.Thread(target=submit, args=(j,)) for j in work]
    for t in th: t.start()
    for t in th: t.join()
    ctx.check("reqid", len(reqs) == T * per and all(isinstance(r, dict) and r.get("success") is True and isinstance(r.get("reqid"), int) for r, *_ in reqs), "accepted", f"{[r for r, *_ in reqs]}")
    ids = [r["reqid"] for r, *_ in reqs]
    ctx.log(T, per, ids)
    ctx.check("reqid", len(set(ids)) == len(ids) and not set(ids) & S.setdefault(("ids", n.port), set()), "unique", f"reqids {sorted(ids)} of {len(ids)} requests")
    S[("ids", n.port)] |= set(ids)
    # which SDK calls belong to which request: the arguments are random, hence unique
    L = n.calls(k); num = {json.dumps(c): k + j for j, c in enumerate(L)}
    ctx.check("reach", len(L) == sum(len(w) for _, w, _ in reqs), "count", f"{len(L)} SDK calls")
    for q in reqs:
        for w in q[1]: ctx.check("args", json.dumps(list(w)) in num, "arguments", f"{w} was not called: {L}")
        q.append([num[json.dumps(list(w))] for w in q[1]])
    left = {c: i for i, q in enumerate(reqs) for c in q[3]}; state = {i: {} for i in range(len(reqs))}
    bad = []
    def poll(i):
        q = reqs[i]; i0 = ids[i]
        pre = dict(state[i])
        st, r = n.raw("GET", f"/api/result/{i0}")
        return r, pre
    def expect(i, r, pre, final):
        q = reqs[i]; vals = [pre.get(c) for c in q[3]]; lst = q[1][0][0] == "getRateLiquidityDepthByPair"
        errs = [v[1] for v in vals if v and v[0] == "error"]
        done = bool(errs) or all(v is not None for v in vals)
        if not done:
            ctx.check("awaiting", r.get("success") is False and r.get("awaiting") is True and "data" not in r, "early", f"{ids[i]} is not settled but answers {r}")
        else:
            if r.get("awaiting") is True and not final: return False
            want = [{"error": e} for e in errs] if errs else [[v[1] for v in vals] if lst else vals[0][1]]
            ctx.check("result", r.get("success") is True and r["data"].get("reqid") == ids[i] and r["data"].get("result") in want, "result", f"{ids[i]}: {r} expected one of {want}")
        return True
    order = list(left); rng.shuffle(order)
    for c in order:
        i = left[c]
        for _ in range(rng.randint(0, 2)):
            j = rng.randrange(len(reqs)); r, pre = poll(j)
            for _ in range(400):
                if expect(j, r, pre, False): break
                time.sleep(0.005); r, pre = poll(j)
            else: expect(j, r, pre, True)
        if rng.random() < 0.15: v = ("error", "failed %d" % c); n.settle(c, error=v[1])
        else: v = ("value", {"call": c, "v": value(rng)}); n.settle(c, value=v[1])
        state[i][c] = v
    # everything settled: parallel pollers see the final results
    out = {}
    def pollall(t):
        got = []
        for i in range(len(reqs)):
            for _ in range(600):
                r, _ = poll(i)
                if not r.get("awaiting"): break
                time.sleep(0.005)
            got.append(r)
        out[t] = got
    th = [threading.Thread(target=pollall, args=(t,)) for t in range(T)]
    for t in th: t.start()
    for t in th: t.join()
    for t in range(T):
        for i, r in enumerate(out[t]): expect(i, r, state[i], True)
    living(ctx, n, "asynchronous requests")
    ctx.cover("async", T, per); ctx.run(tuple(json.dumps(q[1]) for q in reqs), len(reqs) > 1)


def wallet(ctx):
    """ERC20, wallet and transaction routes"""
    rng = ctx.rng
    n, k = node(ctx, rng.choice(CONFIGS))
    st, r = n.raw("GET", "/api/addr")
    ctx.check("sign", r == {"success": True, "data": "0xWALLET:" + n.wallet} if n.wallet else r.get("success") is False and "wallet" in r["error"], "addr", f"{r} (wallet {n.wallet})")
    for _ in range(4):
        ts = [addr(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 15]))]; f = rng.choice(["decimals", "symbol", "balance_of"]); g = dict(decimals="decimals", symbol="symbol", balance_of="balanceOf")[f]
        n.plan({"erc20." + g: dict(mode="value", echo=True)}); k = len(n.calls())
        st, r = n.raw("POST", "/api/erc20/" + f, dict(tokens=ts, **({"address": "0xme"} if f == "balance_of" else {})))
        want = [("erc20." + g, [a] + (["0xme"] if f == "balance_of" else [])) for a in ts]
        reached(ctx, n, k, want, f)
        ctx.check("erc20", r == {"success": True, "data": [dict(call=a, args=b) for a, b in want]}, "answer", f"{r}")
        ctx.run((f, tuple(ts)), bool(ts))
    tx = {"to": addr(rng), "data": "0x%x" % rng.getrandbits(64)}; v = {"hash": "0x%x" % rng.getrandbits(64)}
    n.plan({"sendTransaction": dict(mode="value", value=v)}); k = len(n.calls())
    st, r = n.raw("POST", "/api/signsubmittx", dict(tx=tx, sign=rng.choice([True, False])))
    if n.wallet:
        ctx.check("sign", r == {"success": True, "data": {"txReceipt": v}} and n.calls(k) == [["sendTransaction", ["0xWALLET:" + n.wallet, tx]]], "sent", f"{r} {n.calls(k)}")
    else: ctx.check("sign", r.get("success") is False and n.calls(k) == [], "nowallet", f"{r}")
    living(ctx, n, "wallet"); ctx.cover("wallet", bool(n.wallet))


def client(ctx):
    """the Python client and the server together"""
    rng = ctx.rng
    cfg = rng.choice(CONFIGS); n, k = node(ctx, cfg)
    class C(CarbonSDK): DISCLAIMER = False
    sdk = quiet(C, url="http://127.0.0.1:%d" % n.port, token=n.token, Tokens=None, disclaimer=False)
    M, o, acts = P34.methods(rng)
    E = endpoints(rng)
    for name in rng.sample([m for m in M if m not in ("mul", "plus", "getMatchActions", "updateStrategy")], 6):
        f, ep, params, kind = M[name]; k = len(n.calls()); ctx.log(name, params)
        if name in ("qmul", "qplus"):
            r = quiet(f, sdk, dict(sync=True)); a, b = params["a"], params["b"]
            ctx.check("client", r.json() == {"success": True, "data": {"func": name, "a": a, "b": b, "result": a * b if name == "qmul" else a + b}}, "q", f"{r.json()}"); continue
        base = name.rstrip("*"); v = rng.choice(["1.5", "2e-7", 3]) if kind in ("float", "floats") else rng.choice([True, {"x": 1}, "0x5", 9])
        n.plan({base: dict(mode="value", value=v)})
        if kind == "both":
            r = quiet(f, sdk, dict(sync=True)).json(); ctx.check("client", r == {"success": True, "data": v}, "answer", f"{name}: {r}")
            k2 = len(n.calls()); i = quiet(f, sdk, dict(sync=False))
            for _ in range(400):
                r = quiet(sdk.result, i)
                if r is not True: break
                time.sleep(0.005)
            if v is not True: ctx.check("client", r == v, "async", f"{name}: {r}")
            ctx.check("client", json.dumps(n.calls(k2)) == json.dumps(n.calls(k)[:1]), "async:call", "")
            L = n.calls(k)[:1]
        else:
            r = quiet(f, sdk, {}); m = len(params["rate"]) if kind == "floats" else len(params["pairList"]) if "pairList" in params else None
            ctx.check("client", r == ([float(v)] * m if kind == "floats" else float(v) if kind == "float" else [v] * m if m else v), "answer", f"{name}: {r!r}")
            L = n.calls(k)
        # what the SDK got are the parameters of the endpoint, in the order of its signature
        order = dict(getMatchParams=["sourceToken", "targetToken", "amount", "tradeByTargetAmount"], getTradeDataFromActions=["sourceToken", "targetToken", "tradeByTargetAmount", "actionsWei"], getTradeData=["sourceToken", "targetToken", "amount", "tradeByTargetAmount", "filter"],
                     composeTradeByTargetTransaction=["sourceToken", "targetToken", "tradeActions", "deadline", "maxInput", "overrides"], composeTradeBySourceTransaction=["sourceToken", "targetToken", "tradeActions", "deadline", "minReturn", "overrides"],
                     createBuySellStrategy=["baseToken", "quoteToken", "buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget", "overrides"], deleteStrategy=["strategyId", "overrides"], getUserStrategies=["user"],
                     getRateLiquidityDepthByPair=["sourceToken", "targetToken", "rate"]).get(base, ["sourceToken", "targetToken"])
        sets = params["pairList"] if "pairList" in params else [dict(params, rate=x) for x in params["rate"]] if isinstance(params.get("rate"), list) else [params]
        want = [[base, [CS(p[a]) if a in ("sourceToken", "targetToken", "baseToken", "quoteToken") else p[a] for a in order]] for p in sets]
        ctx.check("client", json.loads(json.dumps(L)) == json.loads(json.dumps(want)), "call", f"{name}: the SDK got {L}, expected {want}")
        ctx.cover("client", name); ctx.run((name, str(params), str(v)), True)
        # a failing call
        n.plan({base: dict(mode="reject", value="no such thing")})
        if kind in ("sync", "float"):
            try: r = quiet(f, sdk, {}); ctx.check("client", False, "error:accepted", f"{name}: {r}")
            except RuntimeError as e: ctx.check("client", "no such thing" in str(e), "error", f"{name}: {e}")
    bad = quiet(C, url="http://127.0.0.1:%d" % n.port, token=n.token + "x", Tokens=None, disclaimer=False); k = len(n.calls())
    try: quiet(bad.pairs); ctx.check("auth", False, "client:accepted", "")
    except RuntimeError: ctx.check("auth", n.calls(k) == [], "client:called", "")
    ctx.check("client", quiet(sdk.addr) == ("0xWALLET:" + n.wallet if n.wallet else None), "addr", "")
    living(ctx, n, "client")


CASES = [("routes", routes, 60, 1500), ("hostile", hostile, 60, 1500), ("asynchronous", asynchronous, 60, 1500), ("wallet", wallet, 25, 500), ("client", client, 40, 1000)]
