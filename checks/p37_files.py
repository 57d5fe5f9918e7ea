"""files, frames, start conditions and the CryptoCompare client against a loopback server with a scripted market"""
import gzip, hashlib, json, math, os, pickle, shutil, tempfile, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlsplit, parse_qsl
os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
import numpy as np
import pandas as pd
from vlib.core import close
from vlib.cpclib import quiet, sig
import carbon
from carbon import helpers as H
from carbon.helpers import fload, fsave, pdread, pathtime, pathtime_yrs, pathtime_days, pdcols, listdir
from carbon.helpers.pdread import tknpair
from carbon.helpers.simulation import StartConditions
from carbon.helpers.cryptocompare import CryptoCompare

PID = "P37"
RULE = ("random contents, formats and wrappers saved and loaded; random frames with every selection of window, column and inversion; random start conditions; histories of CryptoCompare queries and cached reads against a scripted server that fails, refuses or answers; "
        "distinct by inputs; non-trivial if data come back")
ASSUME = ["newline translation of text files is not specified", "a query that cannot be sent may fail in any way", "time steps of start conditions are whole seconds", "a start before the data combined with a period is not specified", "the CryptoCompare service is a loopback stub"]
REQUIRED = ["roundtrip", "onfile", "listdir", "window", "invert", "names", "refuse", "pathtime", "start", "url", "params", "answer", "fail", "cache", "nocall", "aggr", "pairs", "stamp", "digest"]
COLLECT = 10
TXT = "abcXYZ 019,.;:-_/\\\"'%$#\n\t"


def text(rng, n=60): return "".join(rng.choice(TXT) for _ in range(rng.randint(0, n)))


def js(rng, d=3):
    u = rng.random()
    if d == 0 or u < 0.4: return rng.choice([None, True, False, rng.randint(-10 ** 12, 10 ** 12), sig(rng, 1e-20, 1e20), text(rng, 9), 0, ""])
    if u < 0.7: return [js(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return {text(rng, 5): js(rng, d - 1) for _ in range(rng.randint(0, 4))}


def files(ctx):
    rng = ctx.rng
    D = tempfile.mkdtemp(prefix="verif_p37_")
    cwd = os.getcwd()
    try:
        os.chdir(D)
        os.mkdir("sub")
        store = {}
        for step in range(rng.randint(3, 9)):
            fn = rng.choice(["a.txt", "b.txt", "c.dat", "D.TXT", "e.pickle"]); path = rng.choice([None, ".", "sub", D + "/sub"])
            where = os.path.normpath(os.path.join(D, path or ".", fn))
            kind = rng.choice(["text", "binary", "json", "gz", "gzb", "gzjson"]); wrap = None
            if kind in ("binary", "gzb"): data = bytes(rng.randrange(256) for _ in range(rng.randint(0, 50)))
            elif kind in ("json", "gzjson"): data = js(rng)
            else: data = text(rng) + ("é€漢" if kind == "gz" else "")
            if kind in ("text", "gz") and rng.random() < 0.3: wrap = rng.choice(["[{}]", "\n<style>\n{}\n</style>\n", "{}{}" if False else "x{}"])
            kw = dict(binary=True) if kind == "binary" else dict(json=True) if kind == "json" else dict(compressed=True) if kind in ("gz", "gzb") else dict(compressed=True, json=True) if kind == "gzjson" else {}
            if rng.random() < 0.2: kw["quiet"] = False
            skw = dict(kw); skw.update(dict(wrapper=wrap) if wrap else {})
            if path is not None or rng.random() < 0.3: skw["path"] = kw["path"] = path
            ctx.log("save", fn, path, kind, repr(data)[:200], wrap)
            quiet(fsave, data, fn, **skw)
            raw = open(where, "rb").read()
            exp = data
            if wrap: exp = wrap.replace("{}", data)
            if kind in ("gz", "gzb", "gzjson"): raw = gzip.decompress(raw)
            if kind in ("text", "gz"): ok = raw == exp.encode()
            elif kind in ("binary", "gzb"): ok = raw == exp
            else: ok = json.loads(raw) == data
            ctx.check("onfile", ok, "file-content", f"{kind} {exp!r:.200} -> {raw!r:.200}")
            store[where] = (fn, kw, kind, exp)
            for w, (f2, k2, kd, ex) in rng.sample(list(store.items()), min(2, len(store))):
                r = quiet(fload, f2, **k2)
                if kd == "gz": ex2 = ex.encode()
                else: ex2 = ex
                ctx.check("roundtrip", type(r) is type(ex2) and r == ex2, "load-differs", f"{kd} {ex2!r:.200} -> {r!r:.200}")
                if kd == "text":
                    k3 = dict(k2, wrapper="<<{}>>"); ctx.check("roundtrip", quiet(fload, f2, **k3) == f"<<{ex}>>", "load-wrapper", "")
            there = [os.path.basename(w) for w in store if os.path.dirname(w) == D]
            for ext in (".txt", ".TXT", ".pickle", ".zzz"):
                ctx.check("listdir", quiet(listdir, D, ext) == sorted(f[:-len(ext)] for f in there if f.lower().endswith(ext.lower())), "listdir", f"{ext} {there}")
            ctx.check("listdir", quiet(listdir, D) == sorted(there + ["sub"]), "listdir", f"{there}")
        ctx.run(("f", repr(sorted(store))[:300], repr([v[3] for v in store.values()])[:300]), True)
    finally:
        os.chdir(cwd); shutil.rmtree(D, ignore_errors=True)


def refused(ctx, f, *a, **k):
    try: r = quiet(f, *a, **k)
    except Exception: ctx.check("refuse", True, "", ""); return
    ctx.check("refuse", False, "accepted", f"{f.__name__} {a[1:]} {k}")


def frame(ctx):
    rng = ctx.rng
    D = tempfile.mkdtemp(prefix="verif_p37_")
    try:
        n = rng.randint(2, 40)
        t0 = pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=rng.randint(0, 600000))
        step = rng.choice([pd.Timedelta(days=1), pd.Timedelta(hours=1), pd.Timedelta(minutes=7), pd.Timedelta(days=30)])
        reg = rng.random() < 0.6
        off = [i if reg else i + (rng.random() * 0.9 if i else 0) for i in range(n)]
        idx = pd.DatetimeIndex([t0 + o * step for o in off], name="datetime")
        cols = rng.sample(["ETH/USDC", "BTC/ETH", "p050-00", "spot", "WBTC / DAI", "A/B/C"], rng.randint(1, 4))
        df = pd.DataFrame({c: [sig(rng, 1e-4, 1e5) for _ in range(n)] for c in cols}, index=idx)
        fn = os.path.join(D, "x.pickle"); df.to_pickle(fn)
        T = list(idx); V = {c: list(df[c]) for c in cols}
        span = T[-1] - T[0]; day = pd.Timedelta(days=1)
        ctx.check("names", list(quiet(pdcols, fn)) == cols, "pdcols", cols)
        for _ in range(rng.randint(3, 8)):
            kw = {}
            keep = list(range(n))
            if rng.random() < 0.25:
                m = rng.randrange(n - 1); kw["min_dt"] = rng.choice([T[m], str(T[m].date()), T[m] + pd.Timedelta(seconds=1)])
                keep = [i for i in keep if T[i] >= pd.Timestamp(kw["min_dt"])]
                if len(keep) < 1: continue
            a, b = T[keep[0]], T[keep[-1]]
            lo, hi = a, b
            u = rng.random()
            if u < 0.3:
                m = rng.choice(keep); kw["from_ts"] = rng.choice([T[m], str(T[m]), T[m].to_pydatetime(), T[m] + step / 3, str(T[m].date())]); lo = pd.Timestamp(kw["from_ts"])
            elif u < 0.6: kw["from_pc"] = rng.choice([0, 0.5, 0.25, rng.random()]); lo = a + kw["from_pc"] * (b - a)
            u = rng.random(); before = lo < a
            if before: lo = a
            if u < 0.35 and not before: kw["period_days"] = rng.choice([0, 1, 7, rng.random() * (span / day), 1e4]); hi = lo + kw["period_days"] * day
            elif u < 0.6 and not before: kw["period_pc"] = rng.choice([1, 0.5, 0, rng.random()]); hi = lo + kw["period_pc"] * (b - a)
            eps = pd.Timedelta(microseconds=2)
            sel = [i for i in keep if lo <= T[i] <= hi]; amb = [i for i in keep if abs(T[i] - lo) <= eps or abs(T[i] - hi) <= eps]
            c = rng.choice(cols); how = rng.choice([None, c, cols.index(c)]); inv = rng.random() < 0.4 and how is not None; tk = rng.random() < 0.4 and how is not None
            if inv: kw["invert"] = True
            if tk: kw["tkns"] = True
            ctx.log(n, repr(kw), how, inv, tk, str(lo), str(hi))
            r = quiet(pdread, fn, how, **kw)
            if tk: r, names = r
            got = list(r.index)
            want = [T[i] for i in sel]; W = {T[i]: i for i in keep}
            exact = not ({"from_pc", "period_pc"} & set(kw)) and not isinstance(kw.get("period_days"), float)
            ok = got == want if exact else all(t in W for t in got) and got == sorted(got) and set(got) ^ set(want) <= {T[i] for i in amb}
            ctx.check("window", ok, "window", f"{kw} from {a} to {b}: {len(got)} rows, expected {len(want)}; {got[:1]}..{got[-1:]}, {want[:1]}..{want[-1:]}")
            ctx.cover(f"rows{min(len(got), 3)}|{sorted(kw)}")
            for t in got:
                i = W[t]
                if how is None: ctx.check("window", list(r.columns) == cols and all(r[x][t] == V[x][i] for x in cols), "frame-values", "")
                else: ctx.check("invert", r[t] == (1 / V[c][i] if inv else V[c][i]), "series-values", f"{how} {r[t]} {V[c][i]} {inv}")
            if tk:
                s = c.split("/"); e = (s[0].strip(), s[1].strip()) if isinstance(how, str) and len(s) == 2 else ("RSK", "CSH")
                ctx.check("names", tuple(names) == (e[::-1] if inv else e), "token-names", f"{how} {inv} {names}")
            if len(got) > 0:
                d = (got[-1] - got[0]) / day
                ctx.check("pathtime", close(pathtime_days(r), d, rel=1e-12, abs_=1e-12) and close(pathtime_yrs(r), d / 365.25, rel=1e-12, abs_=1e-12) and close(pathtime(r), d / 365.25, rel=1e-12, abs_=1e-12), "pathtime", d)
            again = pd.read_pickle(fn)
            ctx.check("window", again.equals(df), "file-changed", "")
        for c in cols:
            s = c.split("/"); e = (s[0].strip(), s[1].strip()) if len(s) == 2 else ("RSK", "CSH")
            ctx.check("names", tuple(tknpair(c)) == e and tuple(tknpair(c, True)) == e[::-1], "tknpair", c)
        refused(ctx, pdread, fn, cols[0], period_days=1, period_pc=.5)
        refused(ctx, pdread, fn, cols[0], period_days=0, period_pc=0)
        refused(ctx, pdread, fn, cols[0], from_ts=T[0], from_pc=.5)
        refused(ctx, pdread, fn, cols[0], from_ts=T[0], from_pc=0)
        refused(ctx, pdread, fn, None, invert=True)
        refused(ctx, pdread, fn, 1.5)
        refused(ctx, pdread, fn, "nope")
        ctx.run(("d", n, str(t0), tuple(cols)), True)
    finally:
        shutil.rmtree(D, ignore_errors=True)


def startcond(ctx):
    rng = ctx.rng
    num = lambda x: rng.choice([x, str(x), np.float64(x)])
    n = rng.randint(2, 60); path = [sig(rng, 10, 1000) for _ in range(n)]
    sb, sa, ba, bb = sorted((sig(rng, 10, 1000) for _ in range(4)), reverse=True)
    if len({sb, sa, ba, bb}) < 4: return ctx.skip()
    # sell range sa..sb above, buy range ba..bb below
    ms = sa + rng.random() * (sb - sa); mb = bb + rng.random() * (ba - bb)
    w0, w1 = rng.choice([(1, 1), (0, 1), (1, 0), (rng.random() + .01, rng.random()), (3, 7)]); val = sig(rng, 1, 1e6)
    uni = [sig(rng, 1, 1000) for _ in range(2)]
    d = {"filtered price chart": [num(x) for x in path], "carbon order weights": [num(w0), num(w1)], "carbon order boundaries": [num(x) for x in (sb, sa, ba, bb)],
         "carbon starting prices": [num(ms), num(mb)], "starting portfolio valuation": [num(val)], "uniswap range boundaries": [num(x) for x in uni]}
    ctx.log(repr(d)[:800])
    if rng.random() < 0.5:
        D = tempfile.mkdtemp(prefix="verif_p37_")
        try:
            fn = os.path.join(D, "sc.pickle")
            with open(fn, "wb") as f: pickle.dump(d, f)
            S = quiet(StartConditions.load, fn)
        finally: shutil.rmtree(D, ignore_errors=True)
    else: S = StartConditions(d)
    start, end = pd.Timestamp("2020-01-01"), pd.Timestamp("2021-01-01")
    if rng.random() < 0.5:
        start = pd.Timestamp("2021-03-04") + pd.Timedelta(hours=rng.randint(0, 5000)); end = start + pd.Timedelta(minutes=rng.randint(1, 10 ** 6)); S.start_dt, S.end_dt = start, end
    p = quiet(lambda: S.path)
    C = lambda c, m, x: ctx.check("start", c, m, x)
    C(S.path_raw == path and S.num_points == n and list(p) == path, "start-path", f"{list(p)[:3]} {path[:3]}")
    dt = S.datetime; tol = pd.Timedelta(seconds=n)
    C(list(p.index) == list(dt) and len(dt) == n, "start-index", "")
    C(dt[0] == start and abs(dt[-1] - end) <= tol, "start-span", f"{dt[0]} {dt[-1]} vs {start} {end}")
    C(all(abs(dt[i] - (start + (end - start) * i / (n - 1))) <= tol for i in range(n)), "start-steps", "")
    C(S.time_period == end - start and abs(S.time_step - (end - start) / (n - 1)) <= tol, "start-period", "")
    C(S.carbon_order_weights == [w0, w1] and S.carbon_ranges_raw == [sb, sa, ba, bb] and S.carbon_prices == [ms, mb] and S.starting_portfolio_valuation == val and S.uni_ranges_raw == uni, "start-fields", "")
    s = quiet(lambda: S.strategy_carbon)
    C((s.p_sell_a, s.p_sell_b, s.p_buy_a, s.p_buy_b) == (sa, sb, ba, bb) and (s.psell_marginal, s.pbuy_marginal) == (ms, mb), "start-ranges", f"{s}")
    seed = s.MIN_SEED_AMT
    tot = s.amt_rsk * path[0] + s.amt_csh
    C(close(tot, val, rel=1e-9, abs_=2 * seed * max(1, path[0])), "start-value", f"{tot} {val}")
    C(close(s.amt_csh, val * w1 / (w0 + w1), rel=1e-9, abs_=2 * seed) and close(s.amt_rsk, val * w0 / (w0 + w1) / path[0], rel=1e-9, abs_=2 * seed), "start-weights", f"{s.amt_rsk} {s.amt_csh}")
    ctx.run(("s", n, sb, w0, val), True)


# ---------------------------------------------------------------- CryptoCompare
class Server:
    def __init__(self):
        self.calls, self.script, self.data = [], {}, {}
        me = self
        class Hd(BaseHTTPRequestHandler):
            def do_GET(self):
                u = urlsplit(self.path); q = parse_qsl(u.query, keep_blank_values=True)
                me.calls.append((u.path, q))
                st, body = me.reply(u.path, dict(q))
                b = json.dumps(body).encode()
                self.send_response(st); self.send_header("Content-Length", str(len(b))); self.send_header("Connection", "close"); self.end_headers(); self.wfile.write(b)
            def log_message(self, *a): pass
        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), Hd); self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()
        self.url = f"http://127.0.0.1:{self.srv.server_port}"

    def reply(self, path, q):
        if path in self.script: return self.script[path]
        if path.startswith("/data/v2/histo"): return self.hist(path, q)
        return 200, {"Response": "Success", "Data": {"path": path, "n": len(self.calls)}}

    def hist(self, path, q):
        k = (path, q.get("fsym"), q.get("tsym"))
        if k not in self.data: return 200, {"Response": "Error", "Message": "unknown pair", "Data": {}}
        return 200, {"Response": "Success", "Data": {"Aggregated": False, "Data": self.data[k]}}


SERVER = {}
F = ["open", "close", "high", "low", "volumefrom", "volumeto"]


def server():
    pid = os.getpid()
    if pid not in SERVER: SERVER[pid] = Server()
    s = SERVER[pid]; s.calls.clear(); s.script.clear(); s.data.clear()
    return s


def client(ctx, s, path=None, **kw):
    class CC(CryptoCompare): BASEURL = s.url
    rng = ctx.rng
    key = rng.choice([True, "k%d" % rng.randint(0, 999), "k&y=/+?"])
    how = rng.choice(["apikey", "env", "name"]) if key is not True else "apikey"
    a = dict(kw)
    if path is not None: a["datapath"] = path
    if how == "apikey": a["apikey"] = key
    else:
        nm = CC.APIKEYNAME if how == "env" else "VERIF_OTHERKEY"
        old = os.environ.get(nm); os.environ[nm] = key
        if how == "name": a["apikeyname"] = nm
    try: c = quiet(CC, **a)
    finally:
        if how != "apikey": os.environ.pop(nm) if old is None else os.environ.__setitem__(nm, old)
    ctx.check("url", CC.DATAPATH == CryptoCompare.DATAPATH == "cryptocompare" and (path is None or c.DATAPATH == path), "datapath", f"{CC.DATAPATH} {c.DATAPATH} {path}")
    ctx.check("digest", c.keydigest == ("0" * 40 if key is True else hashlib.sha1(key.encode()).hexdigest()), "key-digest", f"{key}")
    return c, key


def candles(rng, n):
    t0 = 1600000000 + rng.randint(0, 10 ** 7)
    return [dict(time=t0 + 86400 * i, conversionType="direct", conversionSymbol="", **{f: sig(rng, 1e-3, 1e5) for f in F}) for i in range(n)]


def same_df(df, raw):
    return (list(df.columns) == F and [t.timestamp() for t in df.index] == [r["time"] for r in raw] and all(list(df[f]) == [r[f] for r in raw] for f in F))


def stamps(rng):
    t = pd.Timestamp(1500000000 + rng.randint(0, 10 ** 8), unit="s")
    if rng.random() < .2: f = t.timestamp() + .5; return rng.choice([(f, f), (float(int(f)), float(int(f))), (0, 0)])
    return rng.choice([(int(t.timestamp()), int(t.timestamp())), (t, int(t.timestamp())), (str(t), int(t.timestamp())), (str(t.date()), int(pd.Timestamp(t.date()).timestamp())), (t.to_pydatetime(), int(t.timestamp())), (None, None)])


def ccquery(ctx):
    rng = ctx.rng; s = server(); rais = rng.choice([None, True, False]); c, key = client(ctx, s, raiseonerror=rais); R = rais is not False
    ep0 = rng.choice(["/data/x", "/stats/y/z", ""])
    ctx.check("url", c.url(ep0) == s.url + ep0 and CryptoCompare(apikey=True).url("/a") == "https://min-api.cryptocompare.com/a", "url", "")
    for _ in range(rng.randint(3, 8)):
        s.calls.clear(); s.script.clear()
        kind = rng.choice(["generic", "hist", "hist", "simple"])
        bad = rng.random() < 0.3; st = rng.choice([400, 401, 404, 429, 500, 503]) if bad else 200
        if kind == "generic":
            ep = rng.choice(["/data/x", "/stats/y/z"]); prm = rng.choice([None, {}, {"a": 1, "b": None, "c": "x y/&z"}, {"f": 0, "g": "", "h": None}])
            prm0 = dict(prm) if prm else prm
            s.script[ep] = (st, {"Data": 5, "k": [1]})
            exp = {k: str(v) for k, v in (prm or {}).items() if v is not None}
            call = lambda: quiet(c.query, ep, prm) if rng.random() < .5 else quiet(c.query, ep, params=prm, method=c.QUERY_GET)
            want = lambda r: r.json() == {"Data": 5, "k": [1]} and r.status_code == 200
        elif kind == "simple":
            ep, nm = rng.choice([("/data/v4/all/exchanges", "query_allexchanges"), ("/stats/rate/limit", "query_ratelimit"), ("/data/all/coinlist", "query_coinlist"), ("/data/index/list", "query_indexlist")])
            D = js(rng); s.script[ep] = (st, {"Data": D}); exp = {}; prm = prm0 = None
            call = lambda: quiet(getattr(c, nm)); want = lambda r: r == D
        else:
            fq, nm = rng.choice([(c.FREQ_DAILY, "query_dailypair"), (c.FH, "query_hourlypair"), (c.FREQ_MINUTELY, "query_minutelypair")])
            ep = f"/data/v2/histo{fq}"; fs = rng.choice(["BTC", "ETH", "LINK"]); ts = rng.choice([None, "USD", "eur"]); e = rng.choice([None, "Kraken"]); lim = rng.choice([False, 1, 10, 2000, None])
            toTs, tt = stamps(rng); raw = candles(rng, rng.randint(1, 6)); asp = rng.random() < 0.7; prm = prm0 = None
            unk = not bad and rng.random() < 0.2
            s.script[ep] = (st, {"Response": "Success", "Data": {"Data": raw, "TimeTo": 5}}) if not unk else (200, {"Response": "Error", "Message": "no", "Data": rng.choice([{}, {"Data": raw, "TimeTo": 5}, {"Data": []}])})
            exp = dict(fsym=fs, tsym=ts or "usd", e=e, limit=2000 if lim is False else lim, toTs=tt)
            exp = {k: str(v) for k, v in exp.items() if v is not None}
            kw = dict(tsym=ts, e=e, limit=lim, toTs=toTs)
            if not asp: kw["aspandas"] = False
            call = (lambda: quiet(getattr(c, nm), fs, **kw)) if rng.random() < .5 else (lambda: quiet(c.query_freqlypair, fq, fsym=fs, **kw))
            want = (lambda r: same_df(r, raw)) if asp else (lambda r: r == {"Data": raw, "TimeTo": 5})
            bad = bad or unk
        if key is not True: exp["api_key"] = key
        ctx.log(kind, ep, st, bad, rais, repr(exp))
        try: r = call(); exc = None
        except Exception as ex: r, exc = None, ex
        ctx.check("url", len(s.calls) == 1 and s.calls[0][0] == ep, "endpoint", f"{s.calls} {ep} {exc!r}")
        ctx.check("params", dict(s.calls[0][1]) == exp and len(s.calls[0][1]) == len(exp), "params", f"{s.calls[0][1]} expected {exp}")
        ctx.check("params", prm == prm0, "caller-params-changed", f"{prm}")
        if bad: ctx.check("fail", (exc is not None) if R else (exc is None and r is None), "failed-query", f"{kind} status {st} raiseonerror={rais}: {r} {exc!r}")
        else: ctx.check("answer", exc is None and r is not None and want(r) or exc is None and kind == "simple" and want(r), "answer", f"{kind} {r} {exc!r}")
        ctx.cover(f"{kind}|{st}|{bad}|{rais}")
        ctx.run((kind, ep, st, rais, repr(exp)), not bad)
    refused(ctx, c.query, "/x", method="PUT"); refused(ctx, c.query_freqlypair, "week", "BTC")
    refused(ctx, CryptoCompare, apikeyname="VERIF_NO_SUCH_KEY"); refused(ctx, CryptoCompare, apikey=5)


def cccache(ctx):
    rng = ctx.rng; s = server()
    D = tempfile.mkdtemp(prefix="verif_p37_")
    try:
        rais = rng.choice([None, True, False]); R = rais is not False
        if rng.random() < 0.6: c, key = client(ctx, s, D, raiseonerror=rais)
        else:
            class CD(CryptoCompare): DATAPATH = D; BASEURL = s.url
            c = CD(apikey=True, raiseonerror=rais)
        M = {}
        METH = {"allexchanges": "/data/v4/all/exchanges", "coinlist": "/data/all/coinlist", "indexlist": "/data/index/list"}
        for step in range(rng.randint(5, 16)):
            s.calls.clear(); s.script.clear(); u = rng.random()
            if u < 0.25:
                it = rng.choice(["x", "query_coinlist", "y z"]); v = rng.choice([js(rng), pd.Series([1, 2.5]).to_dict(), {"a": (1, 2)}])
                ctx.log("write", it, repr(v)[:100])
                ctx.check("cache", quiet(c.write_cache, it, v) == it, "write-cache", it); M[it] = v
            elif u < 0.45:
                it = rng.choice(["x", "query_coinlist", "y z", "query_indexlist", "never"]); ctx.log("read", it, it in M)
                try: r, exc = quiet(c.cache, it), None
                except Exception as ex: r, exc = None, ex
                if it in M: ctx.check("cache", exc is None and r == M[it], "cache-value", f"{it} {r} {M[it]} {exc!r}")
                else: ctx.check("cache", (exc is not None) if R else (exc is None and r is None), "cache-miss", f"{it} {r} {exc!r} {rais}")
            elif u < 0.5:
                # an item that cannot be written
                try: r, exc = quiet(c.write_cache, "no/such/dir", 1), None
                except Exception as ex: r, exc = None, ex
                ctx.check("cache", (exc is not None) if R else (exc is None and r is None), "write-failure", f"{r} {exc!r}")
            elif u < 0.58 and M:
                it = rng.choice(list(M)); os.remove(c.datafn(it + ".pickle")); del M[it]; ctx.log("drop", it)
            else:
                nm = rng.choice(list(METH)); it = "query_" + nm; ep = METH[nm]
                rd, up = rng.choice([None, True, False]), rng.choice([None, True, False]); kw = {}
                if rd is not None: kw["readonfail"] = rd
                if up is not None: kw["updateonfail"] = up
                bad = rng.random() < 0.25; new = {"v": rng.randint(0, 10 ** 9)}
                s.script[ep] = (503 if bad else 200, {"Data": new})
                ctx.log("cache_", nm, kw, bad, it in M)
                try: r, exc = quiet(getattr(c, "cache_" + nm), **kw), None
                except Exception as ex: r, exc = None, ex
                ctx.cover(f"{rd}|{up}|{bad}|{it in M}|{rais}")
                if it in M and M[it] is not None:
                    ctx.check("cache", exc is None and r == M[it], "cached-read", f"{r} {M[it]} {exc!r}"); ctx.check("nocall", not s.calls, "needless-query", f"{s.calls}")
                    continue
                reads = bool(up) or rd is not False
                ctx.check("nocall", [x[0] for x in s.calls] == ([ep] if reads else []), "query-on-miss", f"{kw} {s.calls}")
                if not reads: ctx.check("cache", (exc is not None) if R else (exc is None and r is None), "miss-not-read", f"{r} {exc!r}")
                elif bad: ctx.check("cache", (exc is not None) if R else (exc is None and r is None), "miss-failed", f"{r} {exc!r}")
                else: ctx.check("cache", exc is None and r == new, "miss-read", f"{r} {new} {exc!r}")
                fn = c.datafn(it + ".pickle")
                if up and not bad:
                    M[it] = new; ctx.check("cache", os.path.exists(fn), "not-cached", it)
                elif it not in M and not (up and bad): ctx.check("cache", not os.path.exists(fn), "cached-unasked", it)
                elif os.path.exists(fn):
                    v = pickle.load(open(fn, "rb"))
                    ctx.check("cache", v is None, "failure-cached", f"{v}"); M[it] = None
        ctx.check("url", c.datafn("a.b") == os.path.join(D, "a.b"), "datafn", "")
        ctx.check("cache", sorted(f for f in os.listdir(D)) == sorted(k + ".pickle" for k in M) , "cache-files", f"{os.listdir(D)} {sorted(M)}")
        ctx.run(("c", repr(sorted(M)), rais, step, repr(ctx.trail[-3:])[:200]), bool(M))
    finally:
        shutil.rmtree(D, ignore_errors=True)


def ccaggr(ctx):
    rng = ctx.rng; s = server(); c, key = client(ctx, s)
    coins = rng.sample(["BTC", "ETH", "LINK", "UNI", "BNT"], rng.randint(1, 3)); quotes = rng.sample(["USD", "EUR", "ETH"], rng.randint(1, 2))
    form = rng.choice(["list", "str"]); cs = coins if form == "list" else rng.choice([",", ", ", " ,"]).join(coins)
    pr = c.create_pairs(cs, quotes if rng.random() < .5 else ",".join(quotes))
    ctx.check("pairs", sorted(map(tuple, pr)) == sorted((a, b) for a in coins for b in quotes if a != b) and all(p.tknb == p[0] and p.tknq == p[1] for p in pr), "create-pairs", f"{pr}")
    ctx.check("pairs", [tuple(p) for p in pr] == [(a, b) for b in quotes for a in coins if a != b], "create-pairs-order", f"{pr}")
    p2 = c.create_pairs(cs); ctx.check("pairs", sorted(map(tuple, p2)) == sorted((a, b) for a in coins for b in coins if a != b), "create-pairs", f"{p2}")
    for p in pr: ctx.check("pairs", c.pt_from_pair(c.pair_from_pt(p)) == p and c.pair_from_pt(p) == f"{p[0]}/{p[1]}", "pair-tuple", f"{p}")
    pl = [f"{a}/{b}" for a, b in pr]
    if pl:
        ctx.check("pairs", tuple(c.coinlist(", ".join(pl), aspt=True)) == tuple(pr) and c.coinlist(pl) is pl and tuple(c.coinlist(";".join(pl), sep=";")) == tuple(pl), "coinlist", "")
    L = [text(rng, 5).strip().replace(",", "") for _ in range(rng.randint(1, 4))]
    ctx.check("pairs", tuple(c.unjoin(c.join(L))) == tuple(x.strip() for x in L) and c.unjoin("1,2 , 3", filter=int) == (1, 2, 3) and c.unjoin("a|b", sep="|") == ("a", "b") and c.join((1, 2), sep="-") == "1-2", "join", f"{L}")
    t, e = stamps(rng)
    if t is not None and not isinstance(t, (int, float)): ctx.check("stamp", c.ts_tocc(t) == e and c.ts_fromcc(c.ts_tocc(t)) == pd.Timestamp(e, unit="s"), "timestamp", f"{t} {c.ts_tocc(t)} {e}")
    if not pr: return ctx.skip()
    fq = rng.choice([None, c.FD, c.FH, c.FM]); ep = f"/data/v2/histo{fq or 'day'}"; n = rng.randint(1, 5); base = candles(rng, n)
    for a, b in pr: s.data[(ep, a, b)] = [dict(r, **{f: sig(rng, 1e-3, 1e5) for f in F}) for r in base]
    fields = rng.choice([None, "close", ["open", "low"], ("high",), "close, open"]); fl = ["close"] if fields is None else [x.strip() for x in fields.split(",")] if isinstance(fields, str) else list(fields)
    kw = {}; xt = {}
    for k, v, ch in (("incl_raw", False, .3), ("incl_raw_aggr", False, .3), ("incl_grand_aggr", False, .4)):
        if rng.random() < ch: kw[k] = v
    if rng.random() < .5: xt["limit"] = rng.randint(1, 100)
    if rng.random() < .5: xt["e"] = "Kraken"
    if fq: kw["freq"] = fq
    s.calls.clear()
    arg = rng.choice([pr, ", ".join(pl), [tuple(p) for p in pr]])
    ctx.log(repr(arg), fields, kw, xt)
    r = quiet(c.aggr_query, arg, fields, **kw, **xt)
    ctx.check("aggr", [x[0] for x in s.calls] == [ep] * len(pr) and sorted((dict(x[1])["fsym"], dict(x[1])["tsym"]) for x in s.calls) == sorted(map(tuple, pr)), "aggr-queries", f"{s.calls}")
    for p, q in s.calls:
        q = dict(q); ctx.check("params", q.get("limit") == str(xt.get("limit", 2000)) and q.get("e") == xt.get("e"), "aggr-args", f"{q} {xt}")
    raw = {f"{a}/{b}": s.data[(ep, a, b)] for a, b in pr}
    if "incl_raw" in kw: ctx.check("aggr", r["raw"] is None, "aggr-raw", "")
    else: ctx.check("aggr", set(r["raw"]) == set(raw) and all(same_df(r["raw"][k], raw[k]) for k in raw), "aggr-raw", "")
    if "incl_raw_aggr" in kw: ctx.check("aggr", r["rawaggr"] is None, "aggr-rawaggr", "")
    else: ctx.check("aggr", set(r["rawaggr"].columns) == {(k, f) for k in raw for f in F} and all(list(r["rawaggr"][(k, f)]) == [x[f] for x in raw[k]] for k in raw for f in F), "aggr-rawaggr", "")
    ga = "incl_grand_aggr" not in kw
    ctx.check("aggr", list(r["aggr"]) == fl, "aggr-fields", f"{list(r['aggr'])} {fl}")
    for f in fl:
        d = r["aggr"][f]; col = {k: (f, k) if ga else k for k in raw}
        ctx.check("aggr", sorted(map(str, d.columns)) == sorted(map(str, col.values())), "aggr-columns", f"{list(d.columns)} {list(col.values())}")
        for k in raw: ctx.check("aggr", list(d[col[k]]) == [x[f] for x in raw[k]] and [t.timestamp() for t in d.index] == [x["time"] for x in raw[k]], "aggr-values", f"{f} {k}")
    if ga:
        g = r["gaggr"]; ctx.check("aggr", len(g.columns) == len(fl) * len(raw) and all(list(g[(f, k)]) == [x[f] for x in raw[k]] for f in fl for k in raw), "aggr-grand", f"{list(g.columns)}")
    else: ctx.check("aggr", r["gaggr"] is None, "aggr-grand", "")
    ctx.run(("a", repr(arg), repr(fields), repr(kw), repr(xt), n), True)


CASES = [("files", files, 250, 2500), ("frame", frame, 250, 2500), ("startcond", startcond, 300, 3000), ("ccquery", ccquery, 160, 1600), ("cccache", cccache, 160, 1600), ("ccaggr", ccaggr, 120, 1200)]
