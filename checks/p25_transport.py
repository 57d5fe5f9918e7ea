"""graphs of possible trades: contents, capacity and balances under transports"""
import contextlib, copy, io, math
import numpy as np
from vlib.core import close
from vlib.cpclib import quiet, sig
from carbon.tools import arbgraphs as ag

PID = "P25"
RULE = ("histories of edge additions (by direction and by sign), funded and unfunded transports with and without recording (as number, as amount object, over edges and over "
        "the graph), over-capacity and over-balance requests, duplications, resets and statistics on graphs of 2-6 tokens with parallel, opposite and isolated edges; a "
        "ledger model is updated alongside; distinct by history; non-trivial if at least one transport was recorded")
ASSUME = ["capacities and balances are judged up to the documented slack of 1e-9 plus rounding", "routing is pro rata in the remaining capacities (the only algorithm offered)"]
REQUIRED = ["record", "refuse", "dry", "prorata", "statistics", "duplicate", "filter", "signs", "reset", "history", "amount", "edge", "dataframe"]
EPS = 1e-9
TK = ["WETH", "USDC", "LINK", "AAVE", "BNT", "DAI"]


class Model:
    """the ledger: edges as [in, cap_in, out, cap_out, remaining, uid, inverse], balances, balance histories"""
    def __init__(s): s.nodes, s.edges, s.bal, s.hist = [], [], {}, {}
    def node(s, t):
        if t not in s.bal: s.nodes.append(t); s.bal[t] = 0; s.hist[t] = [0]
    def add(s, a, ca, b, cb, uid, inv):
        s.node(a); s.node(b); s.edges.append([a, ca, b, cb, ca, uid, inv])
    def put(s, t, v): s.bal[t] = v; s.hist[t].append(v)
    def at(s, e): return next(i for i, x in enumerate(s.edges) if x is e)
    def route(s, a, b): return [e for e in s.edges if e[0] == a and e[2] == b]


def snap(G):
    return ([(n.tkn, n.ix, n.state.amount, list(n.state.amount_.history)) for n in G.nodes],
            [(e.node_in.tkn, e.amount_in, e.node_out.tkn, e.amount_out, e.ix, e.inverse, e.uid, e.state.amount_in_remaining) for e in G.edges])


def near(a, b, scale=0.): return abs(a - b) <= 1e-9 * max(abs(a), abs(b), scale) + 1e-12 * scale


def same(ctx, mon, G, M, what):
    """the graph is in the state of the ledger"""
    ctx.check(mon, [n.tkn for n in G.nodes] == M.nodes and [n.ix for n in G.nodes] == list(range(len(M.nodes))), what + ":nodes", f"{[str(n) for n in G.nodes]} vs {M.nodes}")
    ctx.check(mon, len(G.edges) == len(M.edges) == len(G) and G.len() == (len(M.edges), len(M.nodes)), what + ":count", "")
    for i, (e, m) in enumerate(zip(G.edges, M.edges)):
        ctx.check(mon, (e.node_in.tkn, e.amount_in, e.node_out.tkn, e.amount_out, e.ix, e.uid, e.inverse) == (m[0], m[1], m[2], m[3], i, m[5], m[6]), what + ":edge", f"{e} {e.uid} {e.inverse} vs {m}")
        ctx.check(mon, near(e.state.amount_in_remaining, m[4], m[1]), what + ":remaining", f"{e}: remaining {e.state.amount_in_remaining}, ledger {m[4]}")
        ctx.check(mon, e.node_in is G.node_by_tkn(m[0]) and e.node_out is G.node_by_tkn(m[2]), what + ":link", "edge is attached to a foreign node")
    for n in G.nodes:
        h = M.hist[n.tkn]; sc = max(map(abs, h))
        ctx.check(mon, near(n.state.amount, M.bal[n.tkn], sc), what + ":balance", f"{n}: {n.state.amount}, ledger {M.bal[n.tkn]}")
        g = n.state.amount_.history
        ctx.check("history", len(g) == len(h) and all(near(x, y, sc) for x, y in zip(g, h)), what + ":history", f"{n}: {g} vs {h}")


def build(ctx, G, M, n=None):
    rng = ctx.rng
    tk = rng.sample(TK, rng.randint(2, len(TK)))
    for t in tk[:rng.choice([0, 0, 1, 2])]:
        G.add_node(t); M.node(t)
    k = n or rng.randint(2, 14)
    for i in range(k):
        a, b = rng.sample(tk if rng.random() < 0.5 else tk[:3] if len(tk) > 2 else tk, 2)
        ca, cb = sig(rng, 1e-3, 1e6), sig(rng, 1e-3, 1e6)
        if rng.random() < 0.3: ca = float(rng.randint(1, 1000))
        uid, inv = rng.choice([None, f"u{i}"]), rng.random() < 0.4
        if rng.random() < 0.5:
            r = G.add_edge(a, ca, b, cb, inverse=inv, uid=uid)
        elif rng.random() < 0.5:
            r = quiet(G.add_edge_dxdy, a, ca, b, -cb, inverse=inv, uid=uid)
        else:
            r = quiet(G.add_edge_dxdy, b, -cb, a, ca, inverse=inv, uid=uid)
        M.add(a, ca, b, cb, uid, inv)
        ctx.check("signs", r is G, "chain", "")
        if rng.random() < 0.1: G.add_edge(a, ca, b, cb, inverse=inv, uid=uid); M.add(a, ca, b, cb, uid, inv)       # twice the same
    same(ctx, "signs", G, M, "added")
    # amounts of any size make an edge, in the direction of their signs
    T_ = ag.ArbGraph(); x, y = sig(rng, 1e-15, 1e3), sig(rng, 1e-15, 1e3)
    quiet(T_.add_edge_dxdy, "A", x, "B", -y); quiet(T_.add_edge_dxdy, "A", -x, "B", y)
    ctx.check("signs", [(e.tkn_in, e.amount_in, e.tkn_out, e.amount_out) for e in T_.edges] == [("A", x, "B", y), ("B", y, "A", x)], "small", f"{x} {y}: {T_.edges}")
    s0 = snap(G)
    a, b = rng.sample(tk, 2); x = sig(rng, 1e-3, 1e5)
    for dx, dy in ((x, x), (-x, -2 * x)):
        try:
            quiet(G.add_edge_dxdy, a, dx, b, dy)
            ctx.check("signs", x * x < 1.1e-8, "same:accepted", f"trade of {dx}/{dy} accepted")
        except ValueError: ctx.ev("signs")
        ctx.check("signs", snap(G)[1] == s0[1], "same:added", f"{dx} {dy}")
    quiet(G.add_edge_dxdy, a, 0, b, -x); ctx.check("signs", snap(G)[1] == s0[1], "zero:added", "")
    for bad in ((a, -x, b, x), (a, x, b, 0), (a, x, b, -x)):
        try: G.add_edge(*bad); ctx.check("signs", False, "negative:accepted", f"{bad}")
        except AssertionError: ctx.ev("signs")
    ctx.check("signs", snap(G)[1] == s0[1], "refused:added", "")
    try: G.add_edge_ct(a, b, price=2); ctx.check("signs", False, "mixed:accepted", "connection edge in an amount graph")
    except ValueError: ctx.check("signs", snap(G)[1] == s0[1], "mixed:added", "")
    for n in G.nodes:                       # nodes named by refused additions exist without edges
        M.node(n.tkn)
    return tk


def transports(ctx):
    rng = ctx.rng
    G, M = ag.ArbGraph(), Model()
    tk = build(ctx, G, M)
    nrec = nref = 0
    hist = []
    for t in M.nodes:
        if rng.random() < 0.8:
            v = sig(rng, 1, 1e6) if rng.random() < 0.7 else sum(e[1] for e in M.edges if e[0] == t) * rng.choice([1, 0.5, 2])
            if rng.random() < 0.5: G.node_by_tkn(t).state.amount = v
            else: G.node_by_tkn(t).state.amount_.set(v)
            M.put(t, v); hist.append((t, v))
    same(ctx, "record", G, M, "funded")
    for step in range(rng.randint(3, 18)):
        k = rng.random()
        e = rng.choice(M.edges); a, b = e[0], e[2]
        rt = M.route(a, b); cap = sum(x[4] for x in rt); i = M.at(e)
        ctx.log(step, "route", a, b, "cap", cap, "balance", M.bal[a])
        if k < 0.5:                                                    # over the graph
            if cap <= 1e-3 * max(x[1] for x in rt):
                if any(1e-5 * x[1] < x[4] for x in rt): ctx.check("statistics", G.has_capacity(a, b) and any(G.edges[M.at(x)].has_capacity for x in rt), "little-capacity", f"{rt}")
                continue
            amt = cap * rng.choice([1, 0.5, 0.1, rng.random(), 1e-3, 1 - 1e-4])
            c = rng.random()
            if c < 0.15: amt = cap * rng.choice([1.001, 2, 100]) + 1e-3
            elif c < 0.3 and M.bal[a] > 0: amt = M.bal[a]
            over = amt > cap + EPS * len(rt) * 2 + 1e-9 * amt; poor = amt > M.bal[a] + EPS * 2 + 1e-9 * amt
            if not over and amt > cap - 1e-6 * EPS and amt > cap: continue
            if not poor and amt > M.bal[a]: continue
            rec, obj = rng.random() < 0.75, rng.random() < 0.3
            x = ag.Amount(amt, G.n(a)) if obj else amt
            kw = {} if rec and rng.random() < 0.5 else dict(record=rec)
            if rng.random() < 0.3: kw["routingalgo"] = rng.choice([None, G.TPROUT_PRORATA])
            ca, cb = (a, b) if rng.random() < 0.5 else (G.n(a), G.n(b))
            before = snap(G); ctx.log("transport", amt, a, b, kw, obj); hist.append((amt, a, b, rec))
            toobig = over and any(amt * y[4] / cap > y[1] + EPS for y in rt)     # dry runs are judged against the full edges
            bad = (rec and (over or poor)) or (not rec and toobig)
            try: r = quiet(G.transport, x, ca, cb, **kw)
            except (ValueError, AssertionError) as ex:
                nref += 1
                ctx.check("refuse", bad or over, "transport:refused", f"{amt} of {cap} (balance {M.bal[a]}) record={rec} refused: {ex}")
                ctx.check("refuse", snap(G) == before, "transport:partial", f"refused transport of {amt} {a}->{b} changed the graph")
                continue
            ctx.check("refuse", not bad, "transport:accepted", f"{amt} {a}->{b} of capacity {cap}, balance {M.bal[a]} accepted (record={rec})")
            want = [amt * y[4] / cap for y in rt]; out = [w * y[3] / y[1] for w, y in zip(want, rt)]
            ctx.check("prorata", len(r.amounts_in) == len(rt) and all(near(p, q, amt) for p, q in zip(r.amounts_in, want)), "transport:in", f"{r.amounts_in} expected {want}")
            ctx.check("prorata", len(r.amounts_out) == len(rt) and all(near(p, q, max(max(out), amt * y[3] / y[1])) for p, q, y in zip(r.amounts_out, out, rt)), "transport:out", f"{r.amounts_out} expected {out}")
            ctx.check("prorata", near(r.amount_in.amount, amt) and near(sum(r.amounts_in), amt) and near(r.amount_out.amount, sum(out)), "transport:total", f"{r.amount_in.amount} {r.amount_out.amount} vs {amt} {sum(out)}")
            ctx.check("prorata", all(p is G.edges[M.at(y)] for p, y in zip(r.edges, rt)), "transport:edges", "")
            tn = lambda q: q if isinstance(q, str) else q.tkn
            ctx.check("prorata", (tn(r.amount_in.tkn), tn(r.amount_out.tkn)) == (a, b), "transport:units", "")
            if rec:
                nrec += 1
                for w, o, y in zip(want, out, rt):
                    y[4] -= w; M.put(b, M.bal[b] + o); M.put(a, M.bal[a] - w)
                same(ctx, "record", G, M, "transport")
            else: ctx.check("dry", snap(G) == before, "transport:changed", "a transport that is not recorded changed the graph")
        elif k < 0.75:                                                 # over one edge
            ed = G.edges[i]
            amt = e[4] * rng.choice([1, 0.5, 0.01]) if rng.random() < 0.7 else e[1] * rng.choice([1, 1.5, 0.9])
            if amt <= 1e-6 * e[1]: continue
            rec = rng.random() < 0.6
            over = amt > e[4] + 2 * EPS if rec else amt > e[1] + 2 * EPS
            poor = rec and amt > M.bal[a] + 2 * EPS
            if not over and not poor and (amt > e[4] and rec or (rec and amt > M.bal[a])): continue
            x = ag.Amount(amt, G.n(a)) if rng.random() < 0.3 else amt
            if not rec and rng.random() < 0.2: x, amt, over = None, e[1], False
            before = snap(G); hist.append(("e", i, amt, rec)); ctx.log("edge", i, amt, rec)
            try: r = ed.transport(x, record=rec)
            except (ValueError, AssertionError) as ex:
                nref += 1
                ctx.check("refuse", over or poor or (rec and amt > e[1]), "edge:refused", f"{amt} over {ed} (left {e[4]}, balance {M.bal[a]}): {ex}")
                ctx.check("refuse", snap(G) == before, "edge:partial", "a refused transport changed the edge or its nodes"); continue
            ctx.check("refuse", not (over or poor), "edge:accepted", f"{amt} over {ed} (left {e[4]}, balance {M.bal[a]}) accepted")
            o = amt * e[3] / e[1]
            ctx.check("edge", near(r.amount, o) and r.node is G.n(b), "edge:out", f"{r} expected {o}")
            if rec:
                nrec += 1; e[4] -= amt; M.put(b, M.bal[b] + o); M.put(a, M.bal[a] - amt); same(ctx, "record", G, M, "edge")
            else: ctx.check("dry", snap(G) == before, "edge:changed", "")
        elif k < 0.79:
            f = ag.Amount(1, ag.Node(a)); g = ag.Amount(1, G.n(b)); before = snap(G)
            for bad in (lambda: G.edges[i].transport(f, record=True), lambda: G.edges[i].transport(g, record=True), lambda: G.transport(g, a, b), lambda: G.transport(1, a, b, routingalgo="x"),
                        lambda: G.transport(1, "NOPE", b), lambda: G.transport(1, ag.Node(a), b), lambda: G.edges[i].transport(-1, record=True)):
                try: quiet(bad); ctx.check("refuse", False, "foreign:accepted", "wrong token accepted")
                except (ValueError, AssertionError, KeyError): ctx.check("refuse", snap(G) == before, "foreign:changed", "")
        elif k < 0.9: statistics(ctx, G, M)
        elif k < 0.95: duplicates(ctx, G, M)
        elif k < 0.98:
            t = rng.choice(M.nodes); v = sig(rng, 0.1, 1e5); G.n(t).state.amount = v; M.put(t, v); hist.append((t, v))
        else:
            r = G.reset_state(); hist.append("reset")
            for t in M.nodes: M.bal[t] = 0; M.hist[t] = [0]
            for y in M.edges: y[4] = y[1]
            ctx.check("reset", r is G, "chain", ""); same(ctx, "reset", G, M, "reset")
    statistics(ctx, G, M); duplicates(ctx, G, M)
    ed = rng.choice(G.edges); ed.reset_state(); M.edges[ed.ix][4] = M.edges[ed.ix][1]
    v = rng.choice([0, 0.0, ed.amount_in / 3, 1e-7, 2e-8, 5e-10, 1e-12]); ed.reset_state(v)
    ctx.check("reset", ed.state.amount_in_remaining == v and ed.has_capacity == (v > EPS) and ed.state.is_empty == (v <= EPS), "edge:value", f"{ed.state} reset to {v}"); ed.reset_state()
    n = rng.choice(G.nodes); v = rng.choice([None, 5, 2.5]); n.reset_state(v); M.bal[n.tkn] = v or 0; M.hist[n.tkn] = [v or 0]
    same(ctx, "reset", G, M, "single")
    G.reset_state()
    for t in M.nodes: M.bal[t] = 0; M.hist[t] = [0]
    for y in M.edges: y[4] = y[1]
    same(ctx, "reset", G, M, "final")
    ctx.cover("graph", min(nrec, 6), min(nref, 4), len(M.nodes), len(M.edges))
    ctx.run((tuple(tuple(e[:4]) for e in M.edges), tuple(hist)), nrec > 0)


def statistics(ctx, G, M):
    rng = ctx.rng
    before = snap(G)
    ctx.check("statistics", G.is_amounttype and G.edgetype == "amount" and G.has_capacity() == any(e[4] > EPS for e in M.edges), "capacity", "")
    pairs = {(e[0], e[2]) for e in M.edges}
    for a, b in sorted(pairs | {tuple(rng.sample(M.nodes, 2))}):
        rt = M.route(a, b); back = M.route(b, a)
        ix = lambda l: [M.at(x) for x in l]
        g = lambda l: [e.ix for e in l]
        A, B = (a, b) if rng.random() < 0.5 else (G.n(a), G.n(b))
        ctx.check("filter", g(G.filter_edges(A, B)) == ix(rt), "route", f"{a}->{b}")
        ctx.check("filter", sorted(g(G.filter_edges(A, B, bothways=True))) == sorted(ix(rt + back)) == sorted(g(G.fep(f"{a}/{b}"))), "bothways", f"{a}/{b}")
        ctx.check("filter", g(G.filter_edges(pair=f"{a}/{b}", bothways=False)) == ix(rt), "pair", "")
        ctx.check("statistics", rt == [] or G.has_capacity(A, B) == any(e[4] > EPS for e in rt), "capacity:pair", f"{a}->{b}: {G.has_capacity(A, B)} with {rt}")
        two = G.edge_statistics(A, B, bothways=True); st = G.edge_statistics(A, B)
        if rng.random() < 0.3: two = G.edge_statistics(pair=f"{a}/{b}")
        for r, route, (u, v) in ((st, rt, (a, b)), (two[0], rt, (a, b)), (two[1], back, (b, a))):
            if not route: ctx.check("statistics", r is None, "empty", f"{r}"); continue
            ci, co, rem = sum(e[1] for e in route), sum(e[3] for e in route), sum(e[4] for e in route)
            ok = (r.len == len(route) and g(r.edges) == ix(route) and r.amounts_in == tuple(e[1] for e in route) and r.amounts_out == tuple(e[3] for e in route)
                  and near(r.amount_in.amount, ci) and near(r.amount_out.amount, co) and near(r.amount_in_remaining.amount, rem, ci) and near(r.price, co / ci)
                  and all(near(x, e[3] / e[1]) for x, e in zip(r.prices, route)) and all(near(x, e[4], e[1]) for x, e in zip(r.amounts_in_remaining, route))
                  and all(near(x, 1 - e[4] / e[1], 1) for x, e in zip(r.utilizations, route)) and near(r.utilization, 1 - rem / ci, 1))
            ctx.check("statistics", ok, "edge", f"{r} for {route}")
            ctx.check("statistics", (r.amount_in.tkn.tkn, r.amount_in_remaining.tkn.tkn) == (u, u), "edge:units", "")
    for t in M.nodes:
        r = G.node_statistics(t if rng.random() < 0.5 else G.n(t))
        i, o = [e for e in M.edges if e[2] == t], [e for e in M.edges if e[0] == t]
        ok = ([e.ix for e in r.edges_in] == [M.at(e) for e in i] and [e.ix for e in r.edges_out] == [M.at(e) for e in o]
              and r.nodes_in == {e[0] for e in i} and r.nodes_out == {e[2] for e in o} and near(r.amount_in.amount, sum(e[3] for e in i)) and near(r.amount_out.amount, sum(e[1] for e in o))
              and near(r.amount_out_remaining.amount, sum(e[4] for e in o), sum(e[1] for e in o)) and r.node is G.n(t) and r.amount_in.tkn is r.amount_out.tkn is r.amount_out_remaining.tkn is G.n(t))
        ctx.check("statistics", ok, "node", f"{r}")
        g = lambda l: sorted(e.ix for e in l)
        ctx.check("filter", g(G.filter_edges(node=t)) == sorted(M.at(e) for e in i + o) == g(G.filter_edges(node=G.n(t), bothways=True)), "node", f"{t}")
        ctx.check("filter", g(G.filter_edges(node_in=t)) == sorted(M.at(e) for e in o) and g(G.filter_edges(None, t)) == sorted(M.at(e) for e in i), "oneside", f"{t}")
        ctx.check("filter", G.n(t) is G.node(G.n(t).ix) is G.node_by_tkn(G.n(t)), "lookup", "")
    ctx.check("filter", sorted(e.ix for e in G.filter_edges()) == sorted(e.ix for e in G.filter_edges(bothways=True)) == list(range(len(M.edges))), "all", "")
    df = G.edgedf(consolidated=False)
    ctx.check("dataframe", list(df.index) == [e[5] for e in M.edges] and list(zip(df["tkn_in"], df["amount_in"], df["tkn_out"], df["amount_out"])) == [tuple(e[:4]) for e in M.edges], "edges", f"{df}")
    df = G.edgedf(resetindex=True)
    got = {(r["tkn_in"], r["tkn_out"]): (r["amount_in"], r["amount_out"]) for _, r in df.iterrows()}
    want = {k: (sum(e[1] for e in M.route(*k)), sum(e[3] for e in M.route(*k))) for k in pairs}
    ctx.check("dataframe", got.keys() == want.keys() and len(df) == len(want) and all(near(got[k][j], want[k][j]) for k in want for j in (0, 1)), "consolidated", f"{got} vs {want}")
    ctx.check("dataframe", all(set(r["pair"].split("/")) == {r["tkn_in"], r["tkn_out"]} for _, r in df.iterrows()), "pair", "")
    e = rng.choice(G.edges); x = e.duplicate()
    ctx.check("duplicate", x.ix is None and (x.node_in, x.amount_in, x.node_out, x.amount_out, x.inverse, x.uid) == (e.node_in, e.amount_in, e.node_out, e.amount_out, e.inverse, e.uid) and near(x.state.amount_in_remaining, x.amount_in), "edge", f"{x} of {e}")
    ctx.check("statistics", snap(G) == before, "changed", "statistics changed the graph")


def duplicates(ctx, G, M):
    rng = ctx.rng
    before = snap(G)
    D = G.duplicate(consolidate=False)
    N = Model(); [N.node(t) for t in M.nodes]; [N.add(*e[:4], e[5], e[6]) for e in M.edges]
    same(ctx, "duplicate", D, N, "plain")
    C = G.duplicate() if rng.random() < 0.5 else G.duplicate(consolidate=True)
    ctx.check("duplicate", [n.tkn for n in C.nodes] == M.nodes, "consolidated:nodes", "")
    got = sorted((e.node_in.tkn, e.node_out.tkn) for e in C.edges)
    ctx.check("duplicate", got == sorted({(e[0], e[2]) for e in M.edges}), "consolidated:pairs", f"{got}")
    for e in C.edges:
        rt = M.route(e.node_in.tkn, e.node_out.tkn)
        ctx.check("duplicate", near(e.amount_in, sum(x[1] for x in rt)) and near(e.amount_out, sum(x[3] for x in rt)) and near(e.state.amount_in_remaining, e.amount_in), "consolidated:amounts", f"{e} of {rt}")
    ctx.check("duplicate", [e.ix for e in C.edges] == list(range(len(C.edges))), "consolidated:index", "")
    # using the copies leaves the original alone
    for X in (D, C):
        for n in X.nodes: ctx.check("duplicate", X.node(n.ix) is n is X.n(n.tkn) and all(n is not o for o in G.nodes), "nodes:shared", "")
        for e in list(X.edges):
            if rng.random() < 0.5: e.node_in.state.amount = e.amount_in; e.transport(e.amount_in / 2, record=True)
        X.add_edge(M.nodes[0], 1, "NEW", 2); X.cycles(); X.reset_state()
        ctx.check("duplicate", X.n("NEW").ix == len(M.nodes), "extend", "")
    ctx.check("duplicate", snap(G) == before, "original", "using a duplicate changed the original")


def arithmetic(ctx):
    """amounts and edges as numbers with units"""
    rng = ctx.rng
    a, b = ag.create_node_list(rng.choice(["A,B", "A, B ", ["A", "B"]]))
    ctx.check("amount", (a.tkn, a.ix, b.tkn, b.ix) == ("A", 0, "B", 1), "nodelist", "")
    x, y, s = sig(rng, 1e-6, 1e9) * rng.choice([1, -1]), sig(rng, 1e-6, 1e9) * rng.choice([1, -1]), sig(rng, 1e-3, 1e3)
    if rng.random() < 0.4: y = rng.choice([x, math.nextafter(x, 0) if hasattr(math, "nextafter") else x * (1 - 2e-16), x + 1e-10, x - 1e-10])
    X, Y = ag.Amount(x, a), ag.Amount(y, a)
    for n, r, w in (("add", X + Y, x + y), ("sub", X - Y, x - y), ("mul", X * s, x * s), ("rmul", s * X, x * s), ("div", X / s, x / s), ("neg", -X, -x), ("pos", +X, x), ("abs", abs(X), abs(x)),
                    ("copy", copy.copy(X), x), ("deepcopy", copy.deepcopy(X), x), ("round", round(X, 2), round(x, 2)), ("floor", math.floor(X), math.floor(x)), ("ceil", math.ceil(X), math.ceil(x)), ("trunc", math.trunc(X), math.trunc(x))):
        ctx.check("amount", r.amount == w and r.node is a, n, f"{r} expected {w}")
    ctx.check("amount", X / Y == x / y and (X < Y, X <= Y, X > Y, X >= Y) == (x < y, x <= y, x > y, x >= y) and X == ag.Amount(x, a), "compare", "")
    ctx.check("amount", str(X) == f"{x} A" and f"{X:.3f}" == f"{x:.3f} A" and X.tkn is a, "text", str(X))
    Z = ag.Amount(y, b)
    for n, f in dict(add=lambda: X + Z, sub=lambda: X - Z, div=lambda: X / Z, lt=lambda: X < Z, le=lambda: X <= Z, gt=lambda: X > Z, ge=lambda: X >= Z, num=lambda: X + 1, mul=lambda: X * Y).items():
        try: f(); ctx.check("amount", False, "mixed:" + n, "amounts of different tokens combined")
        except ValueError: ctx.ev("amount")
    ctx.check("amount", X != Z, "mixed:eq", "")
    # edges
    p, q, r, t = (sig(rng, 1e-3, 1e6) for _ in range(4)); inv = rng.random() < 0.5; uid = rng.choice([None, "u"])
    e, f = ag.Edge(a, p, b, q, inverse=inv, uid=uid), ag.Edge(a, r, b, t, inverse=inv)
    amt = lambda g: (g.node_in, g.amount_in, g.node_out, g.amount_out, g.inverse)
    for n, g, w in (("add", e + f, (a, p + r, b, q + t, inv)), ("sum", sum([e, f]), (a, p + r, b, q + t, inv)), ("mul", e * s, (a, p * s, b, q * s, inv)), ("rmul", s * e, (a, p * s, b, q * s, inv)),
                    ("duplicate", e.duplicate(), (a, p, b, q, inv)), ("reverse", e.reverse(), (b, q, a, p, not inv)), ("R", e.R().R(), (a, p, b, q, inv))):
        ctx.check("edge", amt(g) == w and g is not e and g.ix is None and near(g.state.amount_in_remaining, g.amount_in), n, f"{g} {g.inverse} expected {w}")
    g = e + ag.Edge(a, r, b, t, inverse=not inv); ctx.check("edge", amt(g) == (a, p + r, b, q + t, inv), "add:quote", f"{g.inverse}")
    ctx.check("edge", e.duplicate().uid == uid, "uid", f"{e.duplicate().uid}")
    ctx.check("edge", close(e.price(), p / q if inv else q / p) and close(e.price(True), p / q) and close(e.price_outperin, q / p) and close(e.p_outperin, q / p) and close(e.p(False), q / p), "price", "")
    ctx.check("edge", close(e.R().price(), e.price()) and e.R().convention() == e.convention() and e.R().pair() == e.pair(), "reverse:quote", "reversing an edge changed its quote")
    ctx.check("edge", e.pair() == ("B/A" if inv else "A/B") and e.convention() == ("A per B" if inv else "B per A") and e.convention_outperin() == "B per A" and e.pair(not inv) == ("A/B" if inv else "B/A"), "convention", f"{e.pair()} {e.convention()}")
    ctx.check("edge", (e.tkn_in, e.tkn_out) == ("A", "B") and e.is_amounttype and e.has_capacity and not e.state.is_empty, "type", "")
    c = sig(rng, 1e-3, 1e3); w1, w2 = rng.choice([None, 1, 2.5]), sig(rng, 0.1, 10)
    k = ag.Edge.connection_edge(a, b, price=c, inverse=inv, weight=w1); l = ag.Edge.connection_edge(a, b, price=c * 1.5, inverse=inv, weight=w2)
    pr = lambda v: 1 / v if inv else v
    ctx.check("edge", close(k.price(), c) and close(k.price_outperin, pr(c)) and not k.is_amounttype and close((k + l).price_outperin, ((w1 or 1) * pr(c) + w2 * pr(1.5 * c)) / ((w1 or 1) + w2)), "connection", f"{k} {l}")
    ctx.check("edge", close(k.transport().amount, pr(c)) and close(k.transport(s).amount, s * pr(c)) and close(k.R().price(), c), "connection:transport", "")
    for n, g in dict(mixed=lambda: e + k, neg=lambda: e * -1, zero=lambda: e * 0, record=lambda: k.transport(1, record=True), nodes=lambda: e + e.R(), state=lambda: k.state, weight=lambda: ag.Edge.connection_edge(a, b, weight=0),
                     node=lambda: ag.Edge("A", 1, b, 1), assertion=lambda: k.assert_edgetype()).items():
        try: g(); ctx.check("edge", False, "accepted:" + n, "")
        except (ValueError, AssertionError): ctx.ev("edge")
    # records as dictionaries and tables
    n1, n2 = ag.Node("N1", rng.choice([None, 3])), ag.Node("N2", 4)
    d0 = n1.asdict(); keys = list(d0)
    ctx.check("dataframe", d0["tkn"] == "N1" and d0["ix"] == n1.ix and n1.astuple() == tuple(d0.values()), "asdict", f"{d0}")
    inc = rng.sample(keys, rng.randint(1, len(keys))); exc = rng.sample(keys, rng.randint(0, len(keys)))
    ctx.check("dataframe", list(n1.asdict(include=inc)) == inc and n1.asdict(exclude=exc) == {z: d0[z] for z in keys if z not in exc}
              and n1.asdict(include=inc, exclude=exc) == {z: d0[z] for z in inc if z not in exc} == dict(zip([z for z in inc if z not in exc], n1.astuple(include=inc, exclude=exc))), "asdict:fields", f"{inc} {exc}")
    df = ag.Node.l2df([n1, n1, n2, n1])
    ctx.check("dataframe", list(df.reset_index()["tkn"]) == ["N1", "N1", "N2", "N1"], "table:repeated", f"{df}")
    df = ag.Node.l2df([n1, n2], include=["tkn", "ix"], index=rng.choice([None, "tkn"])).reset_index()
    ctx.check("dataframe", list(df["tkn"]) == ["N1", "N2"] and (df["ix"][0] == n1.ix or n1.ix is None) and df["ix"][1] == 4, "table", f"{df}")
    # tracked numbers
    z = ag.TrackedStateFloat(rng.choice([None, 3])); v0 = z.value; h = [v0]
    for v in (x, y, s): z.set(v); h.append(v); ctx.check("history", z.value == v and z.history == h and str(z) == str(v), "tracked", f"{z.history} {h}")
    z.reset(p, clear_history=False); ctx.check("history", z.history == h + [p], "tracked:keep", ""); z.reset(q); ctx.check("history", z.history == [q] and z.value == q, "tracked:reset", "")
    ctx.cover("arith", inv, uid, w1); ctx.run((x, y, p, q, r), True)


CASES = [("transports", transports, 500, 30000), ("arithmetic", arithmetic, 150, 5000)]
