"""random price paths and their interpolation"""
from vlib.core import close
from vlib.cpclib import quiet, sig
import math, datetime
import numpy as np, pandas as pd
from carbon.helpers.pathgenerator import PathGenerator as G
from carbon.helpers.pathinterpolation import PathInterpolation as I, interpolate

PID = "P31"
RULE = ("generators with random drift, volatility, start, horizon, number of steps and start date, single paths and dataframes; interpolation of regular and irregular "
        "price series with periods shorter and longer than their gaps; the random numbers come from the system, the parameters from the seed; distinct by parameters; "
        "non-trivial with at least two steps")
ASSUME = ["statistical claims are judged at 8 standard deviations of samples of at least 300 increments", "prices are positive"]
REQUIRED = ["shape", "times", "drift", "volatility", "independent", "dataframe", "bridge", "through", "density", "estimate", "noise", "original"]


def generator(ctx):
    rng = ctx.rng
    kw = {}
    mu = rng.choice([0, 0.05, -0.3, 1, rng.uniform(-2, 2)]); sg = rng.choice([0.01, 0.2, 0.5, 0.57, 1.1, rng.uniform(0.01, 2)])
    s0 = sig(rng, 1e-4, 1e5); T = rng.choice([1, 0.01, 5, rng.uniform(0.1, 3)]); N = rng.choice([1, 2, 50, 400, 1000])
    st = (rng.randint(1971, 2030), rng.randint(1, 12), rng.randint(1, 28))
    for k, v in dict(mu=mu, sig=sg, s0=s0, time=T, N=N, startdt=rng.choice([st, list(st), datetime.datetime(*st)])).items():
        if rng.random() < 0.85: kw[k] = v
    mu, sg, s0, T, N = (kw.get(k, G.DEFAULTS[k]) for k in ("mu", "sig", "s0", "time", "N"))
    d0 = datetime.datetime(*st) if "startdt" in kw else datetime.datetime(2020, 1, 1)
    if rng.random() < 0.5: kw["colname"] = rng.choice(["x{ix}", "v{sig100}_{ix:02d}", "{mu100}m{ix}"])
    ctx.log(kw)
    g = G(**kw)
    dt = T / N
    ctx.check("times", len(g.times) == len(g.datetimes) == N + 1 and all(close(a, i * dt, 1e-12, 0) for i, a in enumerate(g.times)), "times", "")
    ctx.check("times", g.datetimes[0] == d0 and all(abs((b - d0).total_seconds() - i * dt * 365.25 * 86400) <= 1e-3 + i * 1e-6 for i, b in enumerate(g.datetimes)), "datetimes", f"{g.datetimes[:3]}")
    k = max(1, -(-300 // N))
    paths = [rng.choice([g, g.path])() for _ in range(k)]
    incs = []
    for p in paths:
        ctx.check("shape", len(p) == N + 1 and p[0] == s0 and all(x > 0 for x in p), "path", f"{p[:3]} {len(p)}")
        incs.append(np.diff(np.log(p)))
    ctx.check("independent", len({tuple(p) for p in paths}) == len(paths), "repeated", "the same path twice")
    x = np.concatenate(incs); n = len(x); sd = sg * math.sqrt(dt)
    ctx.check("drift", abs(np.mean(x) - (mu - sg * sg / 2) * dt) < 8 * sd / math.sqrt(n) + 1e-12, "drift", f"mean {np.mean(x)} expected {(mu - sg * sg / 2) * dt} +- {sd / math.sqrt(n)}")
    ctx.check("volatility", abs(np.std(x) / sd - 1) < 8 / math.sqrt(2 * n) + 1e-9 / sd, "volatility", f"{np.std(x)} expected {sd} (n={n})")
    z = (x - np.mean(x)) / np.std(x)
    ctx.check("independent", abs(np.mean(z[1:] * z[:-1])) < 8 / math.sqrt(n), "autocorrelation", f"{np.mean(z[1:] * z[:-1])}")
    ctx.check("volatility", abs(np.mean(z ** 3)) < 8 * math.sqrt(6 / n) and np.mean(z ** 4) < 3 + 14 * math.sqrt(24 / n) and np.mean(z ** 4) > 3 - 8 * math.sqrt(24 / n), "normal", f"skew {np.mean(z**3)} kurtosis {np.mean(z**4)}")
    m = rng.choice([None, 1, 3, 7]) if N < 100 else rng.choice([1, 3])
    kd = {} if m is None else dict(numpaths=m)
    m = m or 100
    col = kw.get("colname", "p{sig100:03d}-{mu100:02d}-{ix:03d}")
    if rng.random() < 0.3: col = kd["colname"] = "c{ix}"
    df = g.pathdf(**kd)
    s100, m100 = round(sg * 100), round(mu * 100)
    ctx.check("dataframe", list(df.columns) == [col.format(sig100=s100, mu100=m100, ix=i) for i in range(m)], "columns", f"{list(df.columns)[:3]} for {col} sig={sg} mu={mu}")
    ctx.check("dataframe", len(df) == N + 1 and df.index.name == "datetime" and [pd.Timestamp(a) for a in df.index] == [pd.Timestamp(b) for b in g.datetimes], "index", "")
    v = df.to_numpy(dtype=float)
    ctx.check("dataframe", (v[0] == s0).all() and (v > 0).all() and len({tuple(c) for c in v.T}) == m, "values", "")
    if m * N >= 300:
        y = np.diff(np.log(v), axis=0).ravel()
        ctx.check("volatility", abs(np.std(y) / sd - 1) < 8 / math.sqrt(2 * len(y)) + 1e-9 / sd, "df", f"{np.std(y)} {sd}")
    # what the estimator says about a path with many steps
    if N >= 400:
        a, b = I.estimate_vol_np(paths[0], T)
        ctx.close("estimate", b, np.std(incs[0]) / math.sqrt(dt), "lognormal", 1e-9, 0, ""); ctx.check("estimate", abs(b / sg - 1) < 8 / math.sqrt(2 * N), "recovers", f"{b} {sg}")
        ctx.close("estimate", a, np.std(np.diff(paths[0])) / math.sqrt(dt), "normal", 1e-9, 0, "")
        se = pd.Series(paths[0], index=pd.DatetimeIndex(list(g.datetimes)))
        a2, b2 = I.estimate_vol(se); ctx.close("estimate", b2, b, "series", 1e-6, 0, ""); ctx.close("estimate", a2, a, "series:normal", 1e-6, 0, "")
    for bad in ((2020, 1), (2020, 1, 1, 1)):
        try:
            G(startdt=bad); ctx.check("times", False, "date:accepted", "")
        except ValueError: ctx.check("times", True, "", "")
    ctx.cover("gen", N, m, tuple(sorted(kw)))
    ctx.run((mu, sg, s0, T, N), N > 1)


def bridge(ctx):
    rng = ctx.rng
    a, b = sig(rng, 1e-6, 1e6), None
    b = a * math.exp(rng.gauss(0, 0.3)); sg = rng.choice([0, 1e-3, 0.1, 1]); n = rng.choice([0, 1, 2, 10, 400])
    x = I.gaussian_bridge(a, b, sg, n)
    ctx.check("bridge", len(x) == max(n, 1) + 1 and x[0] == a and x[-1] == b, "ends", f"{x[0]} {x[-1]} {len(x)} for {a} {b} {n}")
    if n >= 2:
        inc = np.diff(x) - (b - a) / n; sd = sg * (a + b) / 2 / math.sqrt(n)
        if sg == 0: ctx.check("bridge", np.max(np.abs(inc)) < 1e-9 * (a + b), "straight", f"{inc}")
        if n == 400 and sg > 0: ctx.check("noise", abs(np.std(inc) / sd - 1) < 8 / math.sqrt(2 * n) and abs(np.mean(inc)) < 1e-9 * (a + b), "bridge", f"{np.std(inc)} {sd}")
    # a series
    m = rng.choice([2, 3, 10, 30])
    t, idx = pd.Timestamp(f"20{rng.randint(10, 29)}-0{rng.randint(1, 9)}-01"), []
    reg = rng.random() < 0.5
    gap = pd.Timedelta(hours=rng.choice([1, 24, 100]))
    for i in range(m):
        idx.append(t); t = t + (gap if reg else gap * rng.choice([1, 2, 0.25, 7.3]))
    v = [sig(rng, 1e-3, 1e5)]
    for i in range(m - 1): v.append(v[-1] * math.exp(rng.gauss(0, 0.05)))
    s = pd.Series(v, index=pd.DatetimeIndex(idx), name="s")
    per = gap * rng.choice([0.5, 0.1, 0.013, 1, 0.9, 0.3333, 2, 50])
    kw = {}
    k = rng.random()
    if k < 0.3: kw["sig"] = rng.choice([0, 0.3, 0.01])
    elif k < 0.6: kw["sigfctr"] = rng.choice([0, 0.5, 2])
    keep = s.copy()
    ctx.log(list(s.items()), per, kw)
    if m == 2 and "sig" not in kw: pass
    r = quiet(rng.choice([interpolate, I.interpolate]), s, per, **kw)
    ctx.check("original", s.equals(keep) and list(s.index) == list(keep.index), "changed", "")
    ctx.check("through", all(x in r.index for x in s.index) and all(r[x] == s[x] for x in s.index), "points", f"points of the series are missing: {[x for x in s.index if x not in r.index]}")
    ctx.check("through", r.index.is_monotonic_increasing and r.index.is_unique and r.index[0] == s.index[0] and r.index[-1] == s.index[-1], "order", "")
    ctx.check("through", np.isfinite(r.to_numpy()).all(), "finite", "")
    sg = kw["sig"] if "sig" in kw else I.estimate_vol(s)[1] * kw.get("sigfctr", 1)
    ncheck = 0
    for i in range(m - 1):
        td = s.index[i + 1] - s.index[i]
        seg = r[s.index[i]:s.index[i + 1]]
        want = 1 if per > td else int(round(td / per))
        ctx.check("density", len(seg) == want + 1, "segments", f"{len(seg) - 1} steps in {td} with period {per}, expected {want}")
        e = td / want
        ctx.check("density", all(abs((x - s.index[i]) - j * e) < pd.Timedelta(microseconds=10) for j, x in enumerate(seg.index)), "spacing", "")
        d = np.diff(seg.to_numpy()); dev = d - (v[i + 1] - v[i]) / want
        ys = td / pd.Timedelta(days=1) / 365.25
        sd = sg * math.sqrt(ys) * (v[i] + v[i + 1]) / 2 / math.sqrt(want)
        if sg == 0: ctx.check("noise", np.max(np.abs(dev)) <= 1e-9 * v[i], "straight", f"{dev}")
        elif want > 60: ncheck += 1; ctx.check("noise", abs(np.std(dev) / sd - 1) < 8 / math.sqrt(2 * want), "size", f"{np.std(dev)} expected {sd} ({want})")
    off = I.interpolate(s, per, enable=False)
    ctx.check("original", off is s, "disabled", "")
    ctx.check("density", I.days(2) == I.hours(48) == I.minutes(2880) == I.Timedelta(days=2) == pd.Timedelta("2 days"), "periods", "")
    ctx.cover("bridge", n, sg > 0, m, reg, per > gap, ncheck > 0, tuple(kw)); ctx.run((a, b, tuple(v), str(per)), m > 2)


CASES = [("generator", generator, 120, 2500), ("interpolation", bridge, 150, 4000)]
