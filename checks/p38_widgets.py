"""checkbox, slider and dropdown managers under simulated front-end events"""
from vlib.core import close
from vlib.cpclib import quiet, sig
import carbon
from carbon.helpers.widgets import CheckboxManager, PcSliderManager, DropdownManager

PID = "P38"
RULE = ("random managers of every construction form and random histories of front-end events on several managers at once; ill-formed constructions; distinct by construction and history; non-trivial if an event changes a selection")
ASSUME = ["front-end events are simulated with set_state, as the comm layer would do", "list values outside a slider's range may be clamped or refused", "display needs a notebook and is not exercised"]
REQUIRED = ["check", "checkobj", "slider", "range", "dropdown", "refuse", "boxes", "reset"]
WORDS = ["show", "hide", "ETH/USDC", "p1", "p2", "x y", "1", "2", "Zebra", "fee %", "ä"]


def choices(rng, n):
    ids = rng.sample(WORDS + [10, 20, 30, 2.5, True], n)
    if len({str(i) for i in ids}) < n: ids = rng.sample(WORDS, n)
    u = rng.random()
    if u < 0.3: return list(ids), [str(i) for i in ids], [str(i) for i in ids]
    if u < 0.5: return tuple(ids), [str(i) for i in ids], [str(i) for i in ids]
    d = {i: rng.choice(["descr " + str(i), 17, str(i), "same"]) for i in ids}
    return d, [str(i) for i in ids], [str(v) for v in d.values()]


def refused(ctx, f, *a, **k):
    try: quiet(f, *a, **k)
    except Exception: ctx.check("refuse", True, "", ""); return
    ctx.check("refuse", False, "accepted", f"{f.__name__} {a} {k}")


def event(rng, w, v):
    if rng.random() < 0.5: w.set_state({"value": v})
    else: w.value = v


def boxes(ctx, m, ws, ids, descr, dis):
    ctx.check("boxes", len(ws) == len(ids) and list(m.vbox.children) == list(ws) and list(m.hbox.children) == list(ws), "boxes", "")
    ctx.check("boxes", [w.description for w in ws] == descr and [bool(w.disabled) for w in ws] == dis, "labels", f"{[w.description for w in ws]} {descr} {dis}")


def checkbox(ctx):
    rng = ctx.rng; Ms = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 6); ch, ids, descr = choices(rng, n); kw = {}
        u = rng.random(); val = [False] * n
        if u < 0.2: kw["values"] = True; val = [True] * n
        elif u < 0.35: kw["values"] = False
        elif u < 0.7: val = [rng.random() < .5 for _ in range(n)]; kw["values"] = rng.choice([list, tuple])([rng.choice([v, int(v)]) for v in val])
        dis = [False] * n
        if rng.random() < .3: dis = [rng.random() < .5 for _ in range(n)]; kw["disabled"] = rng.choice([dis, [int(d) for d in dis]])
        obj = descr
        if rng.random() < .5: obj = [rng.choice([object(), (1, i), None, "o", 0]) for i in range(n)]; kw["objects"] = obj
        ctx.log("new", repr(ch), repr(kw)[:300])
        if rng.random() < .2:
            ids2 = {i: v for i, v in zip(ids, val)}; m = quiet(CheckboxManager.from_idvdct, ids2, **({"disabled": kw["disabled"]} if "disabled" in kw else {})); obj = descr = ids
        else: m = quiet(CheckboxManager, ch, **kw)
        Ms.append((m, ids, descr, val, dis, obj)); boxes(ctx, m, m.checkboxes, ids, descr, dis)
        for bad in (dict(values=[True] * (n + 1)), dict(values=[True] * (n - 1)), dict(disabled=[True] * (n + 1)), dict(objects=list(range(n + 1))), dict(objects=list(range(n - 1)))): refused(ctx, CheckboxManager, ch, **bad)
    ch0 = 0
    for step in range(rng.randint(2, 12)):
        for m, ids, descr, val, dis, obj in Ms:
            ctx.check("check", m.values == tuple(val) and all(type(v) is bool for v in m.values), "values", f"{m.values} {val}")
            ctx.check("check", m.values_dct == dict(zip(ids, val)) and list(m.values_dct) == ids, "values-dict", f"{m.values_dct}")
            ctx.check("check", m.checked == tuple(i for i, v in zip(ids, val) if v) and m.unchecked == tuple(i for i, v in zip(ids, val) if not v), "checked", f"{m.checked} {m.unchecked} {val}")
            for f in (True, False):
                o = m.objects(f) if rng.random() < .5 else m.objects(checked=f); e = [x for x, v in zip(obj, val) if v is f]
                ctx.check("checkobj", len(o) == len(e) and all(a is b or a == b for a, b in zip(o, e)), "objects", f"{o} {e}")
            ctx.check("checkobj", m.objects() == m.objects(True), "objects", "")
        m, ids, descr, val, dis, obj = rng.choice(Ms); i = rng.randrange(len(ids)); v = rng.random() < .5
        ch0 += val[i] != v; event(rng, m.checkboxes[i], v); val[i] = v; ctx.log("event", i, v)
    for m, ids, descr, val, dis, obj in Ms: ctx.check("reset", len(m.initial_values) == len(ids), "initial", "")
    ctx.run(("c", repr([(x[1], x[3]) for x in Ms]), step), ch0 > 0)


def slider(ctx):
    rng = ctx.rng; Ms = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 5); ch, ids, descr = choices(rng, n); kw = {}
        rg = [(0, 1)] * n; u = rng.random()
        if u < .15: kw["pm"] = True; rg = [(-1, 1)] * n
        elif u < .25: kw["pm"] = False
        elif u < .45: p = [rng.random() < .5 for _ in range(n)]; kw["pm"] = rng.choice([list, tuple])(p); rg = [(-1, 1) if x else (0, 1) for x in p]
        elif u < .6: r = rng.choice([(0, 0.5), (-2, 3), (0.25, 0.75), (-1, 0), [0, 2]]); kw["range"] = r; rg = [tuple(r)] * n
        elif u < .8: rg = [rng.choice([(0, 0.5), (-2, 3), (0.25, 0.75), (-1, 0)]) for _ in range(n)]; kw["range"] = rng.choice([list, tuple])(rng.choice([list, tuple])(x) for x in rg)
        inside = lambda i: rg[i][0] + (rg[i][1] - rg[i][0]) * rng.choice([0, 1, .5, rng.random()])
        val = [min(max(0, a), b) for a, b in rg]; u = rng.random()
        if u < .5: val = [inside(i) for i in range(n)]; kw["values"] = rng.choice([list, tuple])(val)
        elif u < .7:
            lo, hi = max(0, max(a for a, b in rg)), min(1, min(b for a, b in rg))
            if kw.get("pm") is True: lo, hi = -1, 1
            if lo <= hi: v = rng.choice([lo, hi, lo + (hi - lo) * rng.random()]); kw["values"] = v; val = [v] * n
        dis = [False] * n
        if rng.random() < .3: dis = [rng.random() < .5 for _ in range(n)]; kw["disabled"] = dis
        ctx.log("new", repr(ch), repr(kw)[:300]); ctx.cover(f"{sorted(kw)}|{type(kw.get('values')).__name__}|{type(kw.get('pm')).__name__}")
        m = quiet(PcSliderManager, ch, **kw); Ms.append((m, ids, val, rg)); boxes(ctx, m, m.sliders, ids, descr, dis)
        for w, (a, b) in zip(m.sliders, rg): ctx.check("range", close(w.min, 100 * a) and close(w.max, 100 * b), "slider-range", f"{w.min}..{w.max} expected {a}..{b} {kw}")
        ctx.check("range", [tuple(r) for r in m.range] == [tuple(r) for r in rg], "range", f"{m.range} {rg}")
        for bad in (dict(values=[.5] * (n + 1)), dict(values=[.5] * (n - 1)), dict(disabled=[True] * (n + 1)), dict(pm=[True] * (n + 1)), dict(pm=True, range=(0, 1)), dict(pm=False, range=(0, 1)), dict(range=[(0, 1)] * (n + 1)), dict(values=1.5), dict(values=-.5), dict(values=-1.5, pm=True), dict(values=2, pm=True)): refused(ctx, PcSliderManager, ch, **bad)
    k = 0
    for step in range(rng.randint(2, 12)):
        for m, ids, val, rg in Ms:
            ctx.check("slider", len(m.values) == len(val) and all(close(a, b, 1e-9, 1e-12) for a, b in zip(m.values, val)), "values", f"{m.values} {val}")
            d = m.values_dct; ctx.check("slider", list(d) == ids and all(close(d[i], b, 1e-9, 1e-12) for i, b in zip(ids, val)), "values-dict", f"{d} {val}")
        m, ids, val, rg = rng.choice(Ms); i = rng.randrange(len(ids)); a, b = rg[i]; v = rng.choice([a, b, a + (b - a) * rng.random(), a - 1, b + 1]); w = min(max(v, a), b)
        k += not close(w, val[i]); event(rng, m.sliders[i], 100 * v); val[i] = w; ctx.log("event", i, v)
    n = rng.randint(1, 3); x = [rng.choice([-.5, 1.5, .5]) for _ in range(n)]      # listed values outside the range
    try: m = quiet(PcSliderManager, WORDS[:n], values=x)
    except Exception: m = None
    if m is not None: ctx.check("range", all(close(a, min(max(b, 0), 1)) for a, b in zip(m.values, x)), "clamp", f"{m.values} {x}")
    ctx.check("reset", True, "", "")
    ctx.run(("s", repr([(y[1], y[2]) for y in Ms]), step), k > 0)


def dropdown(ctx):
    rng = ctx.rng; n = rng.randint(1, 6); ch, ids, labels = choices(rng, n); kw = {}
    if isinstance(ch, dict): refused(ctx, DropdownManager, ch, labels=["x"] * n)
    elif rng.random() < .5: labels = [rng.choice(["L%d" % i, i * 7]) for i in range(n)]; kw["labels"] = labels; labels = [str(x) for x in labels]
    cur = 0; u = rng.random(); keys = list(ch)
    if u < .35: cur = rng.randrange(n); kw["defaultix"] = cur
    elif u < .75: cur = rng.randrange(n); kw["defaultval"] = rng.choice([keys[cur], ids[cur]])
    descr = ""
    if rng.random() < .4: descr = rng.choice(["pick", "", "N:"]); kw["descr"] = descr
    ctx.log(repr(ch), repr(kw)); ctx.cover(f"{sorted(kw)}|{type(ch).__name__}")
    m = quiet(DropdownManager, ch, **kw); w = m.dropdown
    ctx.check("boxes", w.description == descr and [tuple(o) for o in w.options] == list(zip(labels, ids)), "dropdown-options", f"{w.options} {labels} {ids}")
    k = 0; uniq = len(set(labels)) == n
    for step in range(rng.randint(1, 8)):
        ctx.check("dropdown", m.value == ids[cur] and (m.label == labels[cur]) and m.result == (ids[cur], labels[cur]), "dropdown-value", f"{m.result} expected {ids[cur]} {labels[cur]}")
        new = rng.randrange(n); k += new != cur; cur = new
        u = rng.random()
        if u < .4: w.set_state({"index": cur})
        elif u < .7: w.value = ids[cur]
        elif uniq: w.label = labels[cur]
        else: w.index = cur
        ctx.log("event", cur)
    for bad in (dict(defaultix=n), dict(defaultix=-1), dict(defaultix=n + 3), dict(defaultval="no such option"), dict(defaultval=ids[0], defaultix=0), dict(defaultval="", defaultix=0)): refused(ctx, DropdownManager, ch, **bad)
    ctx.run(("d", repr(ch), repr(kw), cur), k > 0)


CASES = [("checkbox", checkbox, 200, 2000), ("slider", slider, 200, 2000), ("dropdown", dropdown, 200, 2000)]
