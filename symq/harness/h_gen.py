"""Random graphs and types (C20)."""
import networkx as nx
import numpy as _np

import engine
from h_routes import seeded
from engine import And, Or, Not, Sum, Min, SymNum, SymBool, PathBound
import queueing_tool as qt
import queueing_tool.graph.graph_generation as gg


def chk(ctx, c, label, **info):
    ctx.check_that(c, label, ('C20',), **info)


def connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        v = todo.pop()
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x == v and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == n


def eq(ctx, a, b):
    return a == b if ctx.symbolic else abs(a - b) <= 1e-9


def geometric(ctx, g, n, label='a random graph'):
    """The smallest radius that connects the vertices, and all edges within it."""
    chk(ctx, set(g.nodes()) == set(range(n)) and g.number_of_nodes() == n, 'the graph has exactly the vertices asked for',
        got=sorted(g.nodes()))
    if set(g.nodes()) != set(range(n)):
        return None
    plain = [e for e in g.edges() if e[0] != e[1]]
    chk(ctx, all((u, v) in plain for v, u in plain), 'every edge goes both ways', got=sorted(plain))
    pairs = sorted(set((min(e), max(e)) for e in plain))
    if n > 1:
        chk(ctx, connected(n, pairs), 'the graph is connected', got=pairs)
    p = [[g.vp(v, 'pos')[0], g.vp(v, 'pos')[1]] for v in range(n)]
    for v in range(n):
        chk(ctx, And(eq(ctx, g.pos[v][0], p[v][0]), eq(ctx, g.pos[v][1], p[v][1])), 'positions are kept in one order', v=v)
    d = {}
    for a in range(n):
        for b in range(a + 1, n):
            x, y = p[a][0] - p[b][0], p[a][1] - p[b][1]
            d[a, b] = x * x + y * y
    tol = 0 if ctx.symbolic else 1e-12
    for e in pairs:
        for f in d:
            if f not in pairs:
                chk(ctx, d[e] <= d[f] + tol, 'no pair that is closer is left unconnected', edge=e, other=f)
    # the longest edge is needed: without it (and with all shorter ones) the graph falls apart
    for e in pairs:
        rest = [f for f in pairs if f != e]
        if connected(n, rest) and ctx.symbolic:
            chk(ctx, Or(*[d[f] >= d[e] for f in rest]), 'no edge is longer than connecting the graph takes', edge=e)
        elif connected(n, rest):
            chk(ctx, max(d[f] for f in rest) >= d[e] - tol, 'no edge is longer than connecting the graph takes', edge=e)
    return pairs


def points(ctx, n, mode):
    """What random() hands out: any coordinates, or points on a line."""
    if mode == 'plane':
        return None
    out = []
    if mode.startswith('given'):    # many given points and one more, on a line through them
        x = 7 * int(mode[5:] or 1)
        for v in range(n):
            x = (x * 45 + 29) % 1021
            out += [(x % 61) / 64.0, (x // 61 * 3 + v % 2) / 64.0]
        out[2 * (n // 2)] = ctx.real('x', ge=0, lt=1)
        return out
    for v in range(n):
        out += [ctx.real('x', ge=0, lt=1), 0.5]
    return out


class Points(object):
    """Replaces the first draws of numpy.random.random by prepared ones."""

    def __init__(self, ctx, vals):
        self.ctx, self.vals = ctx, list(vals or [])

    def tape(self):
        if self.vals:
            return self.vals.pop(0)
        return self.ctx.real('u', ge=0, lt=1)


def minimal(ctx, n=3, mode='plane', kind='minimal'):
    ctx.tape = Points(ctx, points(ctx, n, mode)).tape
    try:
        prob = None
        if kind == 'minimal':
            sd = (None, 3, _np.int64(0))[ctx.choose(3, 'seed')]
            g = qt.minimal_random_graph(n, seed=sd)
        else:
            prob = ctx.real('prob_loop', ge=0, le=1)
            sd = (None, 3)[ctx.choose(2, 'seed')]
            g = qt.generate_random_graph(n, prob_loop=prob, proportions={1: 1.0}, loop_proportions={2: 0.5, 0: 0.5}, seed=sd)
    finally:
        ctx.tape = None
    geometric(ctx, g, n)
    us = [x for w, x in ctx.draws if w == 'uniform']
    seeded(ctx, sd, 'C20')
    loops = [e[0] for e in g.edges() if e[0] == e[1]]
    if kind == 'minimal':
        chk(ctx, not loops, 'a minimal graph has no loops', got=loops)
        chk(ctx, len(us) == 2 * n, 'one point is drawn for each vertex', got=len(us))
    else:
        us = us[2 * n:]
        chk(ctx, len(us) == n, 'every vertex may get a loop', got=len(us))
        with_loop = Sum([engine.Ite(u < prob, 1, 0) for u in us])
        chk(ctx, with_loop == len(loops), 'loops are added with the probability given', got=loops)
        for e in g.edges():
            t = g.ep(e, 'edge_type')
            chk(ctx, t in ((0, 2) if e[0] == e[1] else (1,)), 'every edge has a type it may have', edge=e, got=t)
    ctx.observe('edges', sorted([int(e[0]), int(e[1])] for e in g.edges()))
    ctx.cover('graph')


TOPO = {
    'small': {0: [0, 1], 1: [0, 2], 2: [2, 1]},
    'noloops': {0: [1], 1: [0, 2], 2: [1]},
    'loops': {0: [0], 1: [1]},
    'four': {0: [1, 2], 1: [0, 1], 2: [0, 3], 3: [2]},
}


def base(ctx, topo, order=True):
    adj = TOPO[topo]
    vs = sorted(adj)
    if order and ctx.choose(2, 'order'):
        vs.reverse()
    g = nx.DiGraph()
    g.add_nodes_from(vs)
    for v in vs:
        for u in adj[v]:
            g.add_edge(v, u)
    return adj, vs, qt.QueueNetworkDiGraph(g)


def random_types(ctx, topo='small', valid=True, default=False):
    """set_types_random draws one type per edge from the right proportions."""
    adj, vs, g = base(ctx, topo)
    before = sorted(g.edges())
    kw = {}
    prop = {1: 1. / 3, 2: 1. / 3, 3: 1. / 3}
    lprop = {k: 0.25 for k in range(4)}
    if not default:
        prop = {5: ctx.real('p', ge=0, le=1), 1: ctx.real('p', ge=0, le=1), 3: ctx.real('p', ge=0, le=1)}
        lprop = {4: ctx.real('l', ge=0, le=1), 0: ctx.real('l', ge=0, le=1)}
        kw = dict(proportions=dict(prop), loop_proportions=dict(lprop))
        bad = [ctx.choose(2, 'bad') if not valid else 0, ctx.choose(2, 'bad') if not valid else 0]
        for b, d in zip(bad, (prop, lprop)):
            s = Sum(list(d.values()))
            if b:
                ctx.assume(Or(s < 0.999, s > 1.001))
            else:
                vals = list(d.values())
                ctx.assume(s == 1 if ctx.symbolic else abs(s - 1) < 1e-9)
    noted = []
    old = ctx.note_choice_p
    ctx.note_choice_p = lambda seq, p: noted.append((list(seq), list(p)))
    try:
        del ctx.draws[:]
        h = qt.set_types_random(g, seed=7, **kw)
        ok = True
    except ValueError:
        ok = False
    finally:
        ctx.note_choice_p = old
    if not default:
        chk(ctx, ok == (not any(bad)), 'proportions that do not sum to one are refused, others are not', ok=ok, bad=bad)
        chk(ctx, And(*[kw['proportions'][k] == prop[k] for k in prop]), 'the proportions given are not changed')
        if any(bad):
            ctx.cover('refused')
    if not ok:
        return
    seeded(ctx, 7, 'C20')
    chk(ctx, sorted(h.edges()) == before, 'setting types changes no edges', got=sorted(h.edges()))
    plain = [e for e in before if e[0] != e[1]]
    loops = [e for e in before if e[0] == e[1]]
    for e in before:
        t = h.ep(e, 'edge_type')
        src = lprop if e[0] == e[1] else prop
        chk(ctx, t in src, 'every edge has a type of its kind', edge=e, got=t)
        if t in src:
            chk(ctx, src[t] > 0, 'no edge has a type of proportion zero', edge=e, got=t)
    for seq, p in noted:
        src = prop if set(seq) == set(prop) else lprop
        chk(ctx, And(set(seq) == set(src), *[eq(ctx, x, src[t]) for t, x in zip(seq, p) if t in src]),
            'types are drawn with the proportions given', types=seq, p=p)
    ctx.observe('types', [int(h.ep(e, 'edge_type')) for e in before])
    ctx.cover('random types')


def spread(ctx, topo='small', loops=False):
    """Any combination of types can come out: edges are typed one by one."""
    adj, vs, g = base(ctx, topo, order=False)
    edges = [e for e in sorted(g.edges()) if (e[0] == e[1]) == loops]
    kinds = {1: 0.5, 2: 0.5}
    got = []
    drawn = []
    old = _np.random.choice

    def choice(a, size=None, replace=True, p=None):
        chk(ctx, replace, 'types are drawn independently')
        n = 1 if size is None else int(size)
        out = [ctx.int('type', ge=1, le=2) for _ in range(n)]
        if set(a) == {1, 2}:
            drawn.extend(out)
        return _np.array(out, dtype=object) if size is not None else out[0]
    _np.random.choice = choice
    try:
        h = qt.set_types_random(g, **{'loop_proportions' if loops else 'proportions': kinds})
    finally:
        _np.random.choice = old
    got = [h.ep(e, 'edge_type') for e in edges]
    chk(ctx, len(drawn) == len(edges), 'one type is drawn for each edge', drawn=len(drawn), edges=len(edges))
    for t in (1, 2):
        chk(ctx, Sum([engine.Ite(x == t, 1, 0) for x in got]) == Sum([engine.Ite(x == t, 1, 0) for x in drawn]),
            'each edge gets a type drawn for it', type=t)
    # no two edges share a draw
    for i in range(len(got)):
        for j in range(i):
            chk(ctx, not (isinstance(got[i], SymNum) and got[i] is got[j]), 'no two edges share a draw',
                edges=(edges[i], edges[j]))
    ctx.cover('spread')


def rank_types(ctx, topo='small', p2=0.4, p3=0.4, ties=True):
    """set_types_rank: loops of type 3 at the top, of type 2 near it, the rest type 1."""
    import math
    adj, vs, g = base(ctx, topo)
    n = len(adj)
    g.set_pos({v: [0.1 * v, 0.2] for v in adj})
    rank = [ctx.real('rank', ge=0) for _ in range(n)]
    if not ties:
        for i in range(n):
            for j in range(i):
                ctx.assume(rank[i] != rank[j])
    r = _np.array(rank, dtype=object if ctx.symbolic else float)
    nd, nf = int(math.ceil(n * p2)), int(p3 * n)
    if nd == 0:
        nf = 0
    calls = []
    old = getattr(gg, '_calculate_distance', None)

    def distance(a, b):
        d = ctx.real('distance', ge=0)
        calls.append(((float(a[0]), float(a[1])), d))
        return d
    gg._calculate_distance = distance
    edges = sorted(g.edges())
    try:
        del ctx.draws[:]
        h = qt.set_types_rank(g, r, pType2=p2, pType3=p3, seed=11)
        seeded(ctx, 11, 'C20')
    finally:
        if old is not None:
            gg._calculate_distance = old
    # a vertex is at the top when fewer than nd vertices are ranked higher
    top = [Sum([engine.Ite(rank[u] > rank[v], 1, 0) for u in range(n)]) < nd for v in range(n)]
    types = {e: int(h.ep(e, 'edge_type')) for e in h.edges()}
    near = []
    for v in range(n):
        t = types.get((v, v))
        chk(ctx, top[v] if t == 3 else Not(top[v]), 'exactly the top ranked vertices have a loop of type 3', v=v, got=t, rank=rank)
        if t == 2:
            near.append(v)
        if (v, v) in edges:
            chk(ctx, t is not None, 'no loop is lost', v=v)
        elif t is not None:
            chk(ctx, t in (2, 3), 'loops are added to the chosen vertices only', v=v, got=t)
    for e in edges:
        chk(ctx, e in types, 'no edge is lost', edge=e)
    for e in types:
        if e[0] != e[1]:
            chk(ctx, e in edges and types[e] == 1, 'every edge that is not a loop has type 1', edge=e, got=types[e])
        else:
            chk(ctx, types[e] in (1, 2, 3), 'loops have type 1, 2 or 3', edge=e, got=types[e])
    chk(ctx, len(near) <= nf, 'no more vertices are near the top than asked for', near=near, most=nf)
    # distances in order of the points they were asked for, for each vertex
    by = {}
    for a, d in calls:
        by.setdefault(int(round(a[0] * 10)), []).append(d)
    full = all(len(by.get(v, [])) == nf for v in by)
    for v in near:
        if full and nf and v in by:
            chk(ctx, Or(*[And(*[by[v][k] <= by[u][k] for u in by]) for k in range(nf)]),
                'a vertex near the top is a nearest one to some point', v=v)
    if full and nf and len(by):
        for k in range(nf):
            chk(ctx, Or(*[And(*[by[v][k] <= by[u][k] for u in by]) for v in near if v in by]),
                'every point has its nearest vertex', k=k, near=near)
    ctx.observe('types', sorted([int(e[0]), int(e[1]), t] for e, t in types.items()))
    ctx.cover('ranked')
    if near:
        ctx.cover('near')
    if 3 in types.values():
        ctx.cover('top')


def pagerank(ctx, n=3):
    """generate_pagerank_graph ranks by the graph's own pagerank."""
    ctx.tape = Points(ctx, points(ctx, n, 'line')).tape
    seen = []
    old = gg.set_types_rank

    def spy(g, rank, pType2=0.1, pType3=0.1, seed=None):
        seen.append((g, rank, pType2, pType3))
        return g
    gg.set_types_rank = spy
    try:
        g = qt.generate_pagerank_graph(n, pType2=0.5, pType3=0.25)
    finally:
        gg.set_types_rank = old
        ctx.tape = None
    geometric(ctx, g, n)
    if not seen:
        # the types are set in some other way
        ctx.cover('pagerank')
        return
    chk(ctx, seen[-1][0] is g, 'types are set on the graph returned')
    rank = seen[-1][1]
    chk(ctx, len(rank) == n, 'there is a rank for every vertex', got=len(rank))
    # stationarity of the pagerank, vertex by vertex
    r = [float(x) for x in rank]
    for v in range(n):
        want = 0.15 / n + 0.85 * sum(r[u] / g.out_degree(u) for u in range(n) if (u, v) in g.edges())
        chk(ctx, abs(r[v] - want) < 1e-3 if n > 1 else True, 'the rank of a vertex is its pagerank', v=v, got=r[v], want=want)
    chk(ctx, seen[-1][2:] == (0.5, 0.25), 'parameters are handed on', got=seen[-1][2:])
    ctx.cover('pagerank')
