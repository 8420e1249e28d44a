"""Setting, reading back and generating routing probabilities (C15, C19)."""
import engine
from engine import And, Or, Not, Sum, SymNum, SymBool, PathBound

import numpy as _np
import queueing_tool as qt

TOPO = {
    # adjacency by vertex
    'mixed': {0: [0, 1, 2], 1: [2], 2: [0, 1]},
    'term': {0: [1, 2], 1: [0, 1, 3], 2: [0], 3: []},
    'early': {0: [], 1: [0, 2], 2: [0, 1, 2]},
    'wide': {0: [1, 2, 3], 1: [0], 2: [2, 3], 3: [0, 3]},
    'one': {0: [0]},
    # names of two digits
    'big': {0: [1, 2, 11], 1: [2], 2: [3, 10], 3: [4], 4: [], 5: [6], 6: [7], 7: [8], 8: [9], 9: [10],
            10: [3, 9, 11], 11: [0]},
}


def chk(ctx, c, label, *tags, **info):
    ctx.check_that(c, label, tags, **info)


def network(ctx, topo, order=0, keep=True):
    """Vertices added in increasing, decreasing or rotated order."""
    adj = TOPO[topo]
    vs = sorted(adj)
    vs = [vs, vs[::-1], vs[1:] + vs[:1]][order]
    g = qt.QueueNetworkDiGraph()
    import networkx as nx
    dg = nx.DiGraph()
    for v in vs:
        dg.add_node(v)
    for v in vs:
        for u in adj[v]:
            dg.add_edge(v, u, edge_type=1)
    net = qt.QueueNetwork(dg, adjust_graph=not keep)
    return adj, net


def rows(mat):
    return [[mat[i, j] for j in range(mat.shape[1])] for i in range(mat.shape[0])]


def read(ctx, adj, net):
    """What is reported, as {v: {u: p}}; both views must agree."""
    d = net.transitions(False)
    m = net.transitions()
    n = len(adj)
    chk(ctx, m.shape == (n, n), 'the transition matrix has one row and column per vertex', 'C15', shape=m.shape)
    chk(ctx, set(d) == set(adj), 'the transition dictionary has every vertex', 'C15', keys=sorted(d))
    out = {}
    for v in adj:
        chk(ctx, set(d[v]) == set(adj[v]), 'the transition dictionary has every out-edge and no other', 'C15', v=v,
            got=sorted(d[v]))
        out[v] = {}
        for u in adj:
            p = d[v].get(u, 0)
            out[v][u] = p
            chk(ctx, same(ctx, m[v, u], p), 'the matrix and the dictionary agree', 'C15', v=v, u=u, m=m[v, u], d=p)
    return out


def same(ctx, a, b):
    if ctx.symbolic:
        return a == b
    return abs(a - b) <= 1e-12


def equal(ctx, adj, got, want, label):
    for v in adj:
        for u in adj:
            chk(ctx, same(ctx, got[v][u], want[v].get(u, 0)), label, 'C15', v=v, u=u, got=got[v][u],
                want=want[v].get(u, 0))


def verdict(ctx, adj, given):
    """-> (must be accepted, must be rejected) for probabilities by vertex."""
    bad, good = [], []
    for v, row in given.items():
        for u, p in row.items():
            if adj[v]:
                bad.append(p < 0)
                good.append(p >= 0)
            if adj[v] and u not in adj[v]:
                bad.append(p != 0)
                good.append(p == 0)
            if not adj[v]:
                good.append(p == 0)
        if adj[v]:
            s = Sum(list(row.values()))
            bad.append(Or(s - 1 > 1e-3, 1 - s > 1e-3))
            good.append(s == 1 if ctx.symbolic else abs(s - 1) < 1e-9)
    return And(*good), Or(*bad)


def routed(ctx, adj, net, want, only=None):
    """One agent arriving at every vertex with several ways out."""
    for v in sorted(adj):
        if len(adj[v]) < 2 or only is not None and v not in only:
            continue
        src = [w for w in sorted(adj) if v in adj[w]]
        if not src:
            continue
        e = net.edge2queue[net.g.edge_index[(src[0], v)]].edge
        del ctx.draws[:]
        a = qt.Agent()
        k = a.desired_destination(net, e)
        us = [x for w, x in ctx.draws if w == 'uniform']
        edge = net.edge2queue[k].edge
        chk(ctx, edge[0] == v and edge[1] in adj[v], 'agents follow an out-edge of where they are', 'C15', 'C14', edge=edge)
        if edge[0] != v:
            raise PathBound()
        ts = sorted(adj[v])
        i = ts.index(edge[1])
        ps = [want[v].get(u, 0) for u in ts]
        tol = 0 if ctx.symbolic else 1e-9
        chk(ctx, ps[i] > 0, 'agents take no edge of probability zero', 'C15', 'C14')
        for u in us[:1]:
            chk(ctx, And(Sum(ps[:i]) <= u + tol, Or(u - tol < Sum(ps[:i + 1]), And(*[p == 0 for p in ps[i + 1:]]))),
                'agents follow the probabilities that are reported', 'C15', 'C14', u=u, ps=ps, i=i)


def free(ctx, name='p'):
    p = ctx.real(name, ge=-1, le=2)
    return p


def valid_row(ctx, ts):
    p = {u: ctx.real('q', ge=0, le=1) for u in ts}
    if p:
        ctx.assume(Sum(list(p.values())) == 1)
    return p


def attempt(ctx, net, arg):
    try:
        net.set_transitions(arg)
        return None
    except (ValueError, TypeError) as e:
        return type(e).__name__


def judge(ctx, adj, net, before, given, err):
    """given: {v: {u: p}} for the vertices given."""
    good, bad = verdict(ctx, adj, given)
    if err is None:
        chk(ctx, Not(bad), 'what is no distribution on the out-edges is rejected', 'C15', given=given)
        want = {v: dict(before[v]) for v in adj}
        for v, row in given.items():
            if adj[v]:
                want[v] = dict(row)
        equal(ctx, adj, read(ctx, adj, net), want, 'what is set is what is reported, and the rest stays')
        ctx.cover('accepted')
        return want
    chk(ctx, Not(good), 'a distribution on the out-edges is accepted', 'C15', given=given, err=err)
    chk(ctx, err == 'ValueError', 'the documented error is raised', 'C15', err=err)
    equal(ctx, adj, read(ctx, adj, net), before, 'a rejected change changes nothing')
    ctx.cover('rejected')
    return before


def transitions(ctx, topo='mixed', via='matrix', orders=3, wild=1, twice=False, route=True):
    adj, net = network(ctx, topo, ctx.choose(orders, 'order of the vertices'))
    n = len(adj)
    got = read(ctx, adj, net)
    uniform = {v: {u: (1. / len(adj[v])) for u in adj[v]} for v in adj}
    for v in adj:
        for u in adj:
            chk(ctx, abs(got[v][u] - uniform[v].get(u, 0)) < 1e-12, 'the default is uniform over the out-edges', 'C15',
                v=v, u=u)
    before = got
    if twice:
        given = {v: valid_row(ctx, adj[v]) for v in adj if adj[v]}
        before = judge(ctx, adj, net, before, given, attempt(ctx, net, {v: dict(r) for v, r in given.items()}))
    vs = sorted(adj)
    ws = vs if n < 9 else [0, 2, 4, 10]
    w = [ws[ctx.choose(len(ws), 'wild vertex')]] if wild == 1 else vs
    if via == 'matrix':
        mat = _np.zeros((n, n), object if ctx.symbolic else float)
        given = {}
        for v in vs:
            if v in w:
                row = {u: free(ctx) if n < 9 or u in adj[v] or u == 5 else 0 for u in vs}
            else:
                row = {u: (1. / len(adj[v]) if u in adj[v] else 0) for u in vs}
            for u, p in row.items():
                mat[v, u] = p
            given[v] = row
        err = attempt(ctx, net, mat)
    else:
        given, arg = {}, {}
        others = [v for v in vs if v not in w]
        extra = ctx.choose(3, 'other vertices given')       # none, one before, one after
        names = list(w)
        if extra == 1:
            names = others[:1] + names
        elif extra == 2:
            names = names + others[:1]
        for v in names:
            if v in w:
                keys = (vs if n < 9 else adj[v] + [5]) if ctx.choose(2, 'targets') else adj[v]
                row = {u: free(ctx) for u in keys}
            else:
                row = valid_row(ctx, adj[v])
            if len(adj[v]) > 1 and ctx.choose(2, 'targets left out'):
                for u in adj[v][:-1]:
                    row.pop(u, None)
                ctx.cover('targets left out')
            given[v] = row
            arg[v] = dict(row)
        err = attempt(ctx, net, arg)
    want = judge(ctx, adj, net, before, given, err)
    if route and err is None:
        routed(ctx, adj, net, want, w if n >= 9 else None)
    ctx.observe('transitions', [[p for u, p in sorted(r.items())] for v, r in sorted(read(ctx, adj, net).items())])


def refused(ctx, topo='mixed'):
    """Arguments of the wrong kind, after a symbolic valid change."""
    adj, net = network(ctx, topo, ctx.choose(3, 'order of the vertices'))
    n = len(adj)
    given = {v: valid_row(ctx, adj[v]) for v in adj if adj[v]}
    before = judge(ctx, adj, net, read(ctx, adj, net), given, attempt(ctx, net, given))
    good = {v: valid_row(ctx, adj[v]) for v in list(adj)[:2] if adj[v]}
    full = _np.zeros((n, n), object if ctx.symbolic else float)
    for v in adj:
        for u in adj[v]:
            full[v, u] = 1. / len(adj[v])
    wide = _np.zeros((n, n + 1), full.dtype)
    wide[:, :n] = full
    big = _np.zeros((n + 1, n + 1), full.dtype)
    big[:n, :n] = full
    big[n, n] = 1
    nan = _np.array([[float(x) for x in r] for r in full])
    src = [v for v in adj if adj[v]][0]
    nan[src, adj[src][0]] = float('nan')
    half = _np.array([[float(x) for x in r] for r in full])
    half[src] = half[src] / 2
    cases = [
        ('ValueError', wide), ('ValueError', big), ('ValueError', full[:n - 1, :n - 1]), ('ValueError', full[0]),
        ('ValueError', full[:, :n - 1]), ('ValueError', nan), ('ValueError', half),
        ('ValueError', dict(list(good.items()) + [(n, {0: 1.0})])),
        ('ValueError', dict([(n + 3, {0: 1.0})] + list(good.items()))),
        ('ValueError', dict(list(good.items()) + [(-1, {0: 1.0})])),
        ('ValueError', dict(list(good.items()) + [('a', {0: 1.0})])),
        ('ValueError', dict([(src, {n: 1.0})])),
        ('ValueError', dict([(src, {})])),
        ('ValueError', dict([(src, {adj[src][0]: float('nan')})])),
        ('TypeError', [list(r) for r in full]), ('TypeError', None), ('TypeError', 'uniform'), ('TypeError', 1.0),
        ('TypeError', tuple(good.items())),
    ]
    want, arg = cases[ctx.choose(len(cases), 'argument')]
    err = attempt(ctx, net, arg)
    chk(ctx, err == want, 'the documented error is raised', 'C15', err=err, want=want, arg=str(arg)[:80])
    equal(ctx, adj, read(ctx, adj, net), before, 'a rejected change changes nothing')
    ctx.cover('refused')


# ---------------------------------------------------------------- C19

def seeded(ctx, seed, *tags):
    """An integer seed is set before anything is drawn, and nothing is set without one."""
    seeds = [x for w, x in ctx.draws if w == 'seed']
    if seed is None:
        chk(ctx, not seeds, 'without a seed the generator goes on as it is', *tags, got=seeds)
    else:
        chk(ctx, bool(ctx.draws) and ctx.draws[0][0] == 'seed' and set(seeds) == {seed},
            'a seed is set before anything is drawn', *tags, got=seeds, seed=seed, first=ctx.draws[:1])
        ctx.cover('seeded')


def generated(ctx, topo='mixed', orders=3, seed=False, kind=0):
    """generate_transition_matrix for every random draw."""
    adj, net = network(ctx, topo, ctx.choose(orders, 'order of the vertices'))
    n = len(adj)
    g = net.g
    if kind == 1:
        import networkx as nx
        g = nx.DiGraph()
        g.add_nodes_from(sorted(adj, reverse=True))
        g.add_edges_from((v, u) for v in adj for u in adj[v])
    elif kind == 2:
        g = {v: list(us) for v, us in adj.items()}
    del ctx.draws[:]
    if seed:
        sd = (7, 0, _np.int64(5), None)[ctx.choose(4, 'seed')]
        mat = qt.generate_transition_matrix(g, seed=sd)
    else:
        sd = None
        mat = qt.generate_transition_matrix(g)
    seeded(ctx, sd, 'C19')
    chk(ctx, tuple(mat.shape) == (n, n), 'one row and column per vertex', 'C19', shape=mat.shape)
    for v in adj:
        for u in adj:
            chk(ctx, mat[v, u] >= 0, 'no negative probability', 'C19', v=v, u=u, p=mat[v, u])
            if u not in adj[v]:
                chk(ctx, mat[v, u] == 0, 'no probability where there is no edge', 'C19', v=v, u=u, p=mat[v, u])
        s = Sum([mat[v, u] for u in adj])
        if adj[v]:
            chk(ctx, s == 1 if ctx.symbolic else abs(s - 1) < 1e-9, 'the row of a vertex with out-edges sums to one', 'C19',
                v=v, s=s)
    err = attempt(ctx, net, mat)
    chk(ctx, err is None, 'a generated matrix can be set on its graph', 'C19', err=err)
    if err is None:
        want = {v: {u: mat[v, u] for u in adj[v]} for v in adj}
        got = net.transitions(False)
        for v in adj:
            for u in adj[v]:
                chk(ctx, same(ctx, got[v].get(u, -1), want[v][u]), 'agents follow the generated matrix', 'C19', v=v, u=u)
    ctx.observe('matrix', [[mat[v, u] for u in sorted(adj)] for v in sorted(adj)])
    ctx.cover('generated')
