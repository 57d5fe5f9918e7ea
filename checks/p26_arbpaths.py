"""cycles, arbitrage along them, and prices implied by graphs of trades"""
import itertools, math
import numpy as np
from collections import deque
from vlib.core import close
from vlib.cpclib import quiet, sig, rand_curve
from carbon.tools import arbgraphs as ag
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer
from checks.p25_transport import TK, near

PID = "P26"
RULE = ("random graphs of amount and connection edges over 2-6 tokens (sparse to complete, parallel and one-way edges, disconnected parts), every cycle of them run from every "
        "token in every result format, every pair priced; graphs made from curves and from trade vectors; symbolic cycles and paths; distinct by edges; non-trivial if the "
        "graph has a cycle of at least two tokens")
ASSUME = ["parallel edges are used pro rata (documented)", "prices of parallel connections are judged for equal weights, for which mean and weighted mean agree"]
REQUIRED = ["cycles", "arbitrage", "formats", "price", "table", "shortest", "matrix", "iterate", "subcycle", "from_curves", "from_trades", "edgeframe", "connected"]


def simple_cycles(succ):
    """all elementary cycles as tuples starting at their smallest vertex (exhaustive search)"""
    out = set()
    def go(s, path):
        for w in succ.get(path[-1], ()):
            if w == s: out.add(tuple(path))
            elif w > s and w not in path: go(s, path + [w])
    for v in sorted(succ): go(v, [v])
    return out


def canon(c):
    i = c.index(min(c)); return tuple(c[i:] + c[:i])


def reach(succ, a):
    dist = {a: 0}; q = deque([a])
    while q:
        v = q.popleft()
        for w in succ.get(v, ()):
            if w not in dist: dist[w] = dist[v] + 1; q.append(w)
    return dist


def structure(ctx, G, E, T):
    """topology against exhaustive search; E = [(in, out)] by name, T = token list"""
    rng = ctx.rng
    succ = {}
    for a, b in E: succ.setdefault(a, set()).add(b)
    want = simple_cycles(succ)
    cs = G.cycles()
    got = [canon([n.tkn for n in c.data]) for c in cs]
    ctx.check("cycles", len(got) == len(set(got)) and set(got) == want, "set", f"{sorted(got)} expected {sorted(want)}")
    ctx.check("cycles", [c.uid for c in cs] == list(range(len(cs))) and all(c.graph is G and all(n is G.n(n.tkn) for n in c.data) for c in cs), "objects", "")
    ctx.check("cycles", [[n.tkn for n in c.data] for c in G.cycles(asgenerator=True)] == [[n.tkn for n in c.data] for c in cs], "generator", "")
    if cs: u = rng.randrange(len(cs)); ctx.check("cycles", ag.Cycle.byid(cs, u) is cs[u] and ag.Cycle.byid(cs, -1) is None, "byid", "")
    # undirected reachability
    und = {}
    for a, b in E: und.setdefault(a, set()).add(b); und.setdefault(b, set()).add(a)
    ctx.check("connected", bool(G.is_weakly_connected) == (len(reach(und, T[0])) == len(T)), "weakly", f"{E}")
    ix = {t: i for i, t in enumerate(T)}; n = len(T)
    A = np.zeros((n, n)); U = np.zeros((n, n))
    for a, b in E: A[ix[a], ix[b]] = 1; U[ix[a], ix[b]] = U[ix[b], ix[a]] = 1
    a, ev = G.Adjacency()
    ctx.check("matrix", np.array_equal(a.toarray(), A) and np.array_equal(G.A.toarray(), A) and np.array_equal(G.Adjacency(directed=False, include_eigenvalues=False).toarray(), U), "adjacency", f"{a.toarray()} {A}")
    Lw = np.diag(U.sum(axis=1)) - U
    L, lev = G.Laplacian()
    ctx.check("matrix", np.array_equal(L.toarray(), Lw) and np.array_equal(G.L.toarray(), Lw), "laplacian", f"{L.toarray()} {Lw}")
    ctx.check("matrix", np.allclose(sorted(np.real(lev)), sorted(np.linalg.eigvalsh(Lw)), atol=1e-6) and close(np.sum(ev).real, 0, 0, 1e-6), "eigenvalues", f"{lev}")
    for f, w in ((G.degree, U.sum(axis=1)), (G.in_degree, A.sum(axis=0)), (G.out_degree, A.sum(axis=1))):
        ctx.check("matrix", f() == {i: int(w[i]) for i in range(n)} and np.array_equal(f(as_matrix=True), np.diag(w)), "degree", f"{f()} {w}")
    try: G.degree("x"); ctx.check("matrix", False, "degree:accepted", "")
    except ValueError: ctx.ev("matrix")
    D = G.as_graph(); ctx.check("matrix", set(D.edges) == {(ix[a], ix[b]) for a, b in E} and set(D.nodes) == set(range(n)) and G.as_graph(directed=False).number_of_edges() == int(np.triu(U).sum()) and set(G.G.edges) == set(D.edges), "networkx", "")
    for a, b in itertools.permutations(T, 2):
        d = reach(succ, a)
        try: p = G.shortest_path(G.n(a), G.n(b))
        except Exception as e:
            ctx.check("shortest", b not in d, "missing", f"no path {a}->{b}: {e}"); continue
        names = [x.tkn for x in p.data]
        ctx.check("shortest", b in d and len(names) == d[b] + 1 and names[0] == a and names[-1] == b and all(y in succ[x] for x, y in zip(names, names[1:])), "path", f"{names} from {a} to {b}")
        ctx.check("shortest", p.pairs_s() == [f"{x}/{y}" for x, y in zip(names, names[1:])] and list(p.items()) == list(p.data), "iterate", "")
    return cs, succ


BIG = TK + [f"T{i}" for i in range(8)]


def sparse(rng):
    """a long ring with a few chords and tails: long cycles and paths"""
    n = rng.randint(7, 12); T = rng.sample(BIG, n)
    m = rng.randint(3, n)
    P = [(T[i], T[(i + 1) % m]) for i in range(m - rng.choice([0, 0, 0, 1]))] + [(T[rng.randrange(i)], T[i])[::rng.choice([1, -1])] for i in range(m, n)]
    for _ in range(rng.choice([0, 1, 3])): P.append(tuple(rng.sample(T, 2)))
    return T, list(dict.fromkeys(P))


def edges_for(rng, dense=None):
    if rng.random() < 0.15: return sparse(rng)
    n = rng.randint(2, 6); T = rng.sample(TK, n)
    allp = list(itertools.permutations(T, 2))
    k = rng.choice([min(len(allp), n + 1), max(2, len(allp) // 2), len(allp)]) if n < 6 else rng.randint(4, 18)
    P = rng.sample(allp, min(k, len(allp)))
    return T, P


def amounts(ctx):
    """arbitrage on graphs with capacities"""
    rng = ctx.rng
    T, P = edges_for(rng)
    G = ag.ArbGraph()
    for t in T: G.add_node(t)
    E = []
    price = {t: math.exp(rng.uniform(-3, 3)) for t in T}
    for a, b in P:
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            x = sig(rng, 1, 1e5); y = x * price[a] / price[b] * math.exp(rng.gauss(0, 0.2))
            E.append((a, x, b, y))
    if rng.random() < 0.2:                                # legs that just about fit each other
        for i, (a, x, b, y) in enumerate(E):
            nxt = [e for e in E if e[0] == b]
            if nxt and rng.random() < 0.7: E[i] = (a, x, b, sum(e[1] for e in nxt if e[2] == nxt[0][2]) * (1 + rng.choice([0, 1, -1]) * rng.choice([1e-9, 1e-7, 5e-5])))
    if rng.random() < 0.2: E.insert(rng.randrange(len(E) + 1), rng.choice(E))      # twice the same
    for u, (a, x, b, y) in enumerate(E): G.add_edge(a, x, b, y, uid=u, inverse=rng.random() < 0.3)
    cs, succ = structure(ctx, G, [(e[0], e[2]) for e in E], T)
    cap = {}
    for a, x, b, y in E: c = cap.setdefault((a, b), [0, 0]); c[0] += x; c[1] += y
    before = [(e.amount_in, e.amount_out, e.state.amount_in_remaining) for e in G.edges]
    token = rng.choice([None] * 2 + T + ["NOPE"])
    results = []
    for c in cs[:60]:
        names = [n.tkn for n in c.data]
        for start in ([None] + names[:3] + (["NOPE"] if rng.random() < 0.2 else [])):
            k = names.index(start) if start in names else 0
            seq = names[k:] + names[:k]; legs = list(zip(seq, seq[1:] + seq[:1]))
            # the most that fits through all legs
            m, room = 1.0, math.inf
            for l in legs: room = min(room, cap[l][0] / m); m *= cap[l][1] / cap[l][0]
            kw = {} if start is None and rng.random() < 0.5 else dict(token=start)
            r = (c.run_arbitrage_cycle if rng.random() < 0.5 else c.run)(**kw) if rng.random() < 0.5 else G.run_arbitrage_cycle(c, **kw)
            ctx.log(seq, start)
            ctx.check("arbitrage", r.token == seq[0] and r.start_ix == k and r.cycle is c, "token", f"{r.token} {r.start_ix} for start {start} of {names}")
            ctx.close("arbitrage", r.amount_in, room, "amount_in", 1e-9, 0, f"{seq}: {r.amount_in}, at most {room} fits")
            ctx.close("arbitrage", r.amount_out, room * m, "amount_out", 1e-9, 0, f"{seq}: {r.amount_out} expected {room * m}")
            ctx.check("arbitrage", near(r.profit, room * m - room, room), "profit", f"{r.profit} vs {room * m - room}")
            ctx.check("arbitrage", r.length == len(names) and near(r.r, m - 1, 1) and near(r.rpcs, (m - 1) / len(names), 1) and near(r.ppcs, r.profit / len(names), room), "ratios", f"{r.r} {r.rpcs} {r.ppcs}")
            # the best cycle amount does not depend on the token it starts with
            pt = G.ptransport(c)
            want = [np.mean([y / x for a, x, b, y in E if (a, b) == l]) for l in zip(names, names[1:] + names[:1])]
            ctx.check("arbitrage", all(close(p, q) for p, q in zip(pt.prices, want)) and len(pt.prices) == len(names) and close(pt.multiplier, np.prod(want)) and pt.numedges == [sum((e[0], e[2]) == l for e in E) for l in zip(names, names[1:] + names[:1])] and pt.cycle is c, "ptransport", f"{pt} {want}")
        if "NOPE" not in names:
            try: G.run_arbitrage_cycle(c, token="NOPE", allow_any_token=False); ctx.check("arbitrage", False, "any:accepted", "")
            except ValueError: ctx.ev("arbitrage")
    ctx.check("arbitrage", before == [(e.amount_in, e.amount_out, e.state.amount_in_remaining) for e in G.edges] and all(n.state.amount == 0 for n in G.nodes), "changed", "evaluating arbitrage changed the graph")
    sub = cs[:12]
    if sub:
        ref = [G.run_arbitrage_cycle(c, token=token) for c in sub]
        key = lambda r: (r.cycle.uid, r.start_ix, r.token, r.profit, r.amount_in, r.amount_out)
        g = G.run_arbitrage_cycles(sub, token, format=G.ACRET_GEN); t = G.run_arbitrage_cycles(sub, token)
        ctx.check("formats", not isinstance(g, tuple) and [key(r) for r in g] == [key(r) for r in t] == [key(r) for r in ref], "tuple", "")
        dc = G.run_arbitrage_cycles(sub, token, format=G.ACRET_DICTS)
        names = [", ".join(n.tkn for n in c.data) for c in sub]
        ctx.check("formats", [(d["uid"], d["start_ix"], d["token"], d["profit"], d["amount_in"], d["amount_out"]) for d in dc] == [key(r) for r in ref] and [d["tokens"] for d in dc] == names
                  and all((d["length"], d["r"], d["rpcs"], d["ppcs"]) == (r.length, r.r, r.rpcs, r.ppcs) for d, r in zip(dc, ref)) and all("cycle" not in d for d in dc), "dicts", f"{dc}")
        df = rng.choice([lambda: G.run_arbitrage_cycles(sub, token, format=G.ACRET_DF), lambda: G.run_arbitrage_cyclesf(t, format=G.ACRET_DF), lambda: G.run_arbitrage_cyclesf(t)])()
        ctx.check("formats", list(df.index) == [c.uid for c in sub] and list(zip(df["token"], df["profit"], df["amount_in"], df["amount_out"], df["tokens"])) == [key(r)[2:] + (n,) for r, n in zip(ref, names)], "df", f"{df}")
        dg = G.run_arbitrage_cycles(sub, token, format=G.ACRET_AGGRDF).reset_index()
        rows = dg[dg["uid"] != ""]; agg = dg[dg["uid"] == ""]
        ctx.check("formats", sorted(zip(rows["token"], rows["uid"], rows["profit"])) == sorted((r.token, str(r.cycle.uid), r.profit) for r in ref), "aggr:rows", f"{dg}")
        by = {k: [r for r in ref if r.token == k] for k in {r.token for r in ref}}
        ctx.check("formats", sorted(agg["token"]) == sorted(by) and all(near(a["profit"], np.mean([r.profit for r in by[a["token"]]]), max(r.amount_in for r in by[a["token"]])) and near(a["amount_in"], np.mean([r.amount_in for r in by[a["token"]]])) for _, a in agg.iterrows()), "aggr:mean", f"{agg}")
        try: G.run_arbitrage_cycles(sub, format="x"); ctx.check("formats", False, "accepted", "")
        except ValueError: ctx.ev("formats")
        ctx.check("formats", G.run_arbitrage_cyclesf(t, format=G.ACRET_TUPLE) is t and str(ref[0]).startswith("RACResult("), "raw", "")
        tk = ref[0].asdict(exclude=["cycle"]); ctx.check("formats", len(ref[0].astuple(include_cycle=False)) == len(tk) and tk["profit"] == ref[0].profit, "astuple", "")
    try: G.price(T[0], T[1]); ctx.check("price", False, "amounts:accepted", "price of an amount graph")
    except AssertionError: ctx.ev("price")
    ctx.cover("amounts", len(T), len(E), min(len(cs), 20), token is None)
    ctx.run(tuple(E), len(cs) > 0)


def prices(ctx):
    """connection graphs: prices, tables, frames"""
    rng = ctx.rng
    n = rng.randint(2, 6); T = rng.sample(TK, n)
    if rng.random() < 0.15: T = [f"{T[0]}({i})" for i in range(1, n)] + T[:1] if rng.random() < 0.5 else rng.sample(BIG, n := rng.randint(6, 9))
    G = ag.ArbGraph(); E = []; order = []; W = []
    fair = rng.random() < 0.5; val = {t: math.exp(rng.uniform(-8, 8)) for t in T}
    def node(t):
        if t not in order: order.append(t)
    for i in range(rng.randint(1, 12)):
        a, b = rng.sample(T, 2) if rng.random() < 0.6 or i >= n - 1 else (T[i], T[i + 1])
        p = val[a] / val[b] * (1 if fair else math.exp(rng.gauss(0, 0.3)))      # units of b per a
        sym, inv = rng.random() < 0.7, rng.random() < 0.4
        node(a); node(b); uid = rng.choice([None, f"c{i}"])
        kw = {} if sym and rng.random() < 0.5 else dict(symmetric=sym)
        if rng.random() < 0.4: kw["price_outperin"] = p
        else: kw.update(price=1 / p if inv else p, inverse=inv)
        if "inverse" not in kw: inv = False
        w = None
        if fair and rng.random() < 0.5: w = kw["weight"] = sig(rng, 0.05, 20)     # prices agree, whatever the weights
        r = (G.add_edge_ct if rng.random() < 0.5 else G.add_edge_connectiontype)(a, b, uid=uid, **kw)
        W.append(w or 1)
        ctx.check("price", r is G, "chain", "")
        E.append((a, b, p, inv, str(uid)))
        if sym: E.append((b, a, 1 / p, not inv, f"{uid}-r")); W.append(w or 1)
    T = order
    ctx.check("price", [(e.tkn_in, e.tkn_out, e.inverse, e.uid) for e in G.edges] == [(a, b, i, u) for a, b, p, i, u in E] and [x.tkn for x in G.nodes] == T, "edges", f"{G.edges} {E}")
    for e, (a, b, p, i, u) in zip(G.edges, E):
        ctx.check("price", close(e.price_outperin, p) and close(e.price(), 1 / p if i else p) and not e.is_amounttype, "edge", f"{e} {p}")
    for e, w in zip(G.edges, W):                        # the weight shows when connections are combined
        o = ag.Edge.connection_edge(e.node_in, e.node_out, price=3 * e.price_outperin)
        ctx.check("price", close((e + o).price_outperin, e.price_outperin * (w + 3) / (w + 1)), "weight", f"{e} weight {w}: {(e + o).price_outperin}")
    cs, succ = structure(ctx, G, [(a, b) for a, b, *_ in E], T)
    M = {}
    for a, b, p, i, u in E: M.setdefault((a, b), []).append(p)
    full = True
    for a in T:
        d = reach(succ, a)
        for b in T:
            A, B = (a, b) if rng.random() < 0.5 else (G.n(a), G.n(b))
            if b not in d:
                full = False
                try: x = G.price(A, B); ctx.check("price", False, "unreachable", f"{a} {b} {x}")
                except ctx_exc: ctx.ev("price")
                continue
            x, u = G.price(A, B), None
            if a == b: ctx.check("price", x == 1, "self", f"{x}"); continue
            # some shortest path explains the price
            names = [v.tkn for v in G.shortest_path(G.n(a), G.n(b)).data]
            w = float(np.prod([np.mean(M[l]) for l in zip(names, names[1:])]))
            ctx.close("price", x, w, "path", 1e-9, 0, f"{a}/{b}: {x} along {names} is {w}")
            if d[b] == 1: ctx.close("price", x, np.mean(M[(a, b)]), "direct", 1e-9, 0, "")
            if fair: ctx.close("price", x, val[a] / val[b], "fair", 1e-9, 0, f"{a}/{b}: {x} instead of {val[a] / val[b]}")
            y, u = G.price(A, B, with_units=True)
            ctx.check("price", y == x and u == f"{b} per {a} [{a}/{b}]", "units", f"{u}")
            pt = G.ptransport(ag.Path([G.n(z) for z in names])); ctx.check("price", close(pt.multiplier, w) and pt.numedges == [len(M[l]) for l in zip(names, names[1:])], "ptransport", "")
    if full:
        inc = rng.sample(T, rng.randint(1, len(T))) if rng.random() < 0.5 else None; exc = rng.sample(T, 1) if rng.random() < 0.3 else None
        kw = {}
        if inc is not None: kw["include"] = [G.n(t) for t in inc]
        if exc is not None: kw["exclude"] = [G.n(t) for t in exc]
        lab = [t for t in (inc or T) if not exc or t not in exc]
        d = G.pricetable(asdf=False, **kw)
        ctx.check("table", d["labels"] == lab and [[x for x in r] for r in d["data"]] == [[G.price(a, b) for b in lab] for a in lab], "dict", f"{d}")
        if lab:
            df = G.pricetable(**kw); ctx.check("table", list(df.index) == list(df.columns) == lab and df.index.name == "tknb" and all(df.loc[a, b] == G.price(a, b) for a in lab for b in lab), "df", f"{df}")
        # arbitrage shows in the multiplier
        for c in cs[:40]:
            m = G.ptransport(c).multiplier; names = [v.tkn for v in c.data]
            w = float(np.prod([np.mean(M[l]) for l in zip(names, names[1:] + names[:1])])); ctx.close("table", m, w, "cycle", 1e-9, 0, "")
            if fair: ctx.close("table", m, 1, "fair", 1e-9, 0, f"cycle {names} of a fair graph multiplies by {m}")
    else: ctx.ev("table")
    # frames
    df = G.edgedf(consolidated=False)
    ok = list(zip(df["tkn_in"], df["tkn_out"])) == [(a, b) for a, b, *_ in E] and all(close(x, e[2]) for x, e in zip(df["price_outin"], E)) and all(close(x, w) for x, w in zip(df["n"], W))
    ctx.check("edgeframe", ok, "edges", f"{df}")
    for (_, r), e in zip(df.iterrows(), E):
        b, q = r["pair"].split("/")
        ctx.check("edgeframe", {b, q} == {e[0], e[1]} and r["is_reverse"] == (b != e[0]) and close(r["price"], e[2] if b == e[0] else 1 / e[2]), "primary", f"{dict(r)} {e}")
    fw, bw, nf, nb = {}, {}, {}, {}
    for (_, r), w in zip(df.iterrows(), W):
        (bw if r["is_reverse"] else fw).setdefault(r["pair"], []).append(r["price"])
        d_ = nb if r["is_reverse"] else nf; d_[r["pair"]] = d_.get(r["pair"], 0) + w
    dc = G.edgedf(resetindex=True); dz = G.edgedf()
    ctx.check("edgeframe", list(dz.index) == list(dc["pair"]) and sorted(dc["pair"]) == sorted(set(fw) | set(bw)), "pairs", f"{dc}")
    z = lambda v: 0 if v != v else v
    for _, r in dc.iterrows():
        p = r["pair"]
        ctx.check("edgeframe", close(z(r["n"]), nf.get(p, 0)) and close(z(r["n_rev"]), nb.get(p, 0)) and close(r["price"], np.mean(fw.get(p) or bw[p])), "consolidated", f"{dict(r)} fw {fw.get(p)} rev {bw.get(p)}")
    # consolidated copies
    D = G.duplicate()
    ctx.check("price", sorted((e.tkn_in, e.tkn_out) for e in D.edges) == sorted(M) and all(close(e.price_outperin, np.mean(M[e.tkn_in, e.tkn_out])) for e in D.edges), "consolidate", "")
    a, b = rng.choice(list(M)); ctx.close("price", D.price(a, b), G.price(a, b), "consolidate:price", 1e-9, 0, "")
    for f in (lambda: G.edge_statistics(a, b), lambda: G.add_edge(a, 1, b, 1), lambda: G.add_edge_ct(a, b, price=1, price_outperin=1), lambda: G.add_edge_ct(a, b, price_outperin=1, inverse=True), lambda: G.add_edge_ct(a, b, weight=0)):
        try: f(); ctx.check("price", False, "accepted", "")
        except (ValueError, AssertionError): ctx.ev("price")
    ctx.check("price", len(G) == len(E), "refused:added", "")
    ctx.cover("prices", len(T), len(E), full, fair, min(len(cs), 20)); ctx.run(tuple((a, b, p) for a, b, p, *_ in E), len(cs) > 0)


import networkx as _nx
ctx_exc = (_nx.NetworkXNoPath,)


def sources(ctx):
    """graphs from curves and from trades"""
    rng = ctx.rng
    toks = rng.sample(TK, rng.randint(2, 4))
    cc = []
    for i in range(rng.randint(1, 6)):
        a, b = rng.sample(toks, 2)
        cc.append(CPC.from_pk(p=sig(rng, 1e-3, 1e3), k=sig(rng, 1, 1e6), pair=f"{a}/{b}", cid=f"c{i}"))
    C = CPCContainer(cc)
    how = rng.randrange(4)
    if how == 0: G = ag.ArbGraph.from_cc(C)
    elif how == 1: G = ag.ArbGraph().add_edges_cpc(C)
    elif how == 2: G = ag.ArbGraph().add_edges_cpc(rng.choice([list, tuple, iter])(cc))
    else:
        G = ag.ArbGraph()
        for c in cc: G.add_edges_cpc(c, **({} if rng.random() < 0.5 else dict(uid=c.cid)))
    want = []
    for c in cc: want += [(c.tknb, c.tknq, c.p, c.cid), (c.tknq, c.tknb, 1 / c.p, c.cid + "-r")]
    ctx.check("from_curves", [(e.tkn_in, e.tkn_out, e.uid) for e in G.edges] == [(a, b, u) for a, b, p, u in want] and all(close(e.price_outperin, w[2]) for e, w in zip(G.edges, want)), "edges", f"{how}: {G.edges} expected {want}")
    ctx.check("from_curves", {n.tkn for n in G.nodes} == {t for c in cc for t in (c.tknb, c.tknq)} and not G.is_amounttype, "nodes", "")
    for c in cc:
        m = np.mean([x.p if (x.tknb == c.tknb) else 1 / x.p for x in cc if {x.tknb, x.tknq} == {c.tknb, c.tknq}])
        ctx.close("from_curves", G.price(c.tknb, c.tknq), m, "price", 1e-9, 0, f"{c.pair}")
    # trades
    dx, dy, w = [], [], []
    for c in cc:
        k = rng.random(); x, y = sig(rng, *rng.choice([(1e-2, 1e4), (1e-9, 1e9), (1e-15, 1e-3)])), sig(rng, *rng.choice([(1e-2, 1e4), (1e-9, 1e9), (1e-15, 1e-3)]))
        if k < 0.4: dx.append(x); dy.append(-y); w.append((c.tknx, x, c.tkny, y, c.cid))
        elif k < 0.8: dx.append(-x); dy.append(y); w.append((c.tkny, y, c.tknx, x, c.cid))
        elif k < 0.9: dx.append(0); dy.append(0)
        else: dx.append(0.0); dy.append(-y)
    if rng.random() < 0.5: G = quiet(ag.ArbGraph.from_ccdxdy, C, rng.choice([tuple, np.array])(dx), dy)
    else:
        class R: curves, dxvalues, dyvalues = C, dx, dy
        G = quiet(ag.ArbGraph.from_r, R)
    ctx.check("from_trades", [(e.tkn_in, e.amount_in, e.tkn_out, e.amount_out, e.uid) for e in G.edges] == w, "edges", f"{G.edges} expected {w}")
    i = rng.randrange(len(cc)); dy2 = list(dy); dx2 = list(dx); dx2[i], dy2[i] = 3.0, 5.0
    try: quiet(ag.ArbGraph.from_ccdxdy, C, dx2, dy2); ctx.check("from_trades", False, "same:accepted", "")
    except ValueError: ctx.ev("from_trades")
    ctx.cover("sources", how, len(cc), len(w)); ctx.run((tuple(dx), tuple(dy), how), len(w) > 1)


def iteration(ctx):
    rng = ctx.rng
    n = rng.randint(1, 8)
    sym = rng.random() < 0.5
    data = [ag.Node(f"T{i}", i) for i in range(n)] if not sym else list(rng.sample(range(100), n))
    c = ag.Cycle(data, uid="c")
    ctx.check("iterate", len(c) == n and list(c.items()) == data + data[:1], "default", f"{list(c.items())}")
    for k in range(n):
        w = data[k:] + data[:k] + data[k:k + 1]
        ctx.check("iterate", list(c.items(start_ix=k)) == w == list(c.items(start_val=data[k])), "items", f"start {k}: {list(c.items(start_ix=k))}")
        ctx.check("iterate", list(c.pairs(start_ix=k)) == list(zip(w, w[1:])) == list(c.pairs(start_val=data[k])), "pairs", f"start {k}")
        if not sym: ctx.check("iterate", c.pairs_s(start_ix=k) == [f"{a.tkn}/{b.tkn}" for a, b in zip(w, w[1:])] == c.pairs_s(start_val=data[k]), "pairs_s", f"start {k}: {c.pairs_s(start_ix=k)}")
    if not sym: ctx.check("iterate", c.pairs_s() == [f"{a.tkn}/{b.tkn}" for a, b in zip(data, data[1:] + data[:1])], "pairs_s:default", "")
    try: c.items(start_ix=0, start_val=data[0]); ctx.check("iterate", False, "both:accepted", "")
    except ValueError: ctx.ev("iterate")
    try: c.run(); ctx.check("iterate", False, "nograph:accepted", "")
    except AssertionError: ctx.ev("iterate")
    p = ag.Path(data); ctx.check("iterate", list(p.items()) == data and list(p.pairs()) == list(zip(data, data[1:])), "path", "")
    # sub-cycles: some rotation of the smaller one is a subsequence of the larger one read once around
    subs = []
    for _ in range(6):
        m = rng.randint(1, n); s = sorted(rng.sample(range(n), m)); r = rng.randrange(m)
        s = s[r:] + s[:r]
        if rng.random() < 0.4: rng.shuffle(s)
        d = [data[i] for i in s]
        if rng.random() < 0.15: d[rng.randrange(m)] = ag.Node("Z") if not sym else -1
        foreign = any(all(x is not y for y in data) if not sym else x not in data for x in d)
        rot = s.index(min(s)); want = not foreign and s[rot:] + s[:rot] == sorted(s)
        sc = ag.Cycle(d, uid=len(subs)); subs.append((sc, want))
        ctx.check("subcycle", bool(sc.is_subcycle_of(c)) == want, "decision", f"{d} in {data}: {sc.is_subcycle_of(c)}")
    got = c.filter_subcycles([s for s, _ in subs])
    ctx.check("subcycle", [x.uid for x in got] == [s.uid for s, w in subs if w], "filter", "")
    ctx.check("subcycle", c.filter_subcycles(subs[0][0]) == ((subs[0][0],) if subs[0][1] else ()) and c.is_subcycle_of(c) and not ag.Cycle(data + [-5]).is_subcycle_of(c), "filter:one", "")
    ctx.cover("iter", n, sym); ctx.run((n, tuple(map(str, data)), rng.random()), n > 1)


CASES = [("amounts", amounts, 150, 4000), ("prices", prices, 200, 6000), ("sources", sources, 150, 4000), ("iteration", iteration, 200, 6000)]
