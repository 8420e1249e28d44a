"""Naming queues by index, edge and edge type (C16)."""
import contextlib

import engine
from engine import And, Or, Not, Sum, SymNum, SymBool, PathBound

import numpy as _np
import queueing_tool as qt

INF = float('inf')
# adjacency with edge types
TOPO = {
    'small': {0: {1: 1, 2: 2}, 1: {0: 1, 1: 3}, 2: {2: 0}},
    'types': {0: {1: 2, 2: 2}, 1: {2: 1}, 2: {0: 0, 2: 1}},
    'terms': {0: {1: 0, 2: 0}, 1: {1: 0}, 2: {0: 0}},
    'one': {0: {0: 1}},
    # names of two digits
    'big': {v: {v + 1: v % 3} for v in range(1, 10)},
}
TOPO['big'].update({0: {1: 1, 10: 2, 2: 12}, 10: {0: 12, 9: 1}})


def chk(ctx, c, label, *tags, **info):
    ctx.check_that(c, label, tags, **info)


class Sel(object):
    """A network whose queues all have had one arrival, and its truth."""

    def __init__(self, ctx, topo, order, data=False):
        import networkx as nx
        self.ctx = ctx
        adj = TOPO[topo]
        vs = sorted(adj)
        if order:
            vs.reverse()
        g = nx.DiGraph()
        g.add_nodes_from(vs)
        for v in vs:
            for u in sorted(adj[v], reverse=bool(order)):
                g.add_edge(v, u, edge_type=adj[v][u])
        self.calls = []
        types = sorted(set(t for d in adj.values() for t in d.values()))
        cls = {t: (qt.NullQueue if t == 0 else qt.LossQueue if t == 2 else qt.QueueServer) for t in types}
        args = {t: (dict() if t == 0 else dict(arrival_f=self.arrival(t), service_f=lambda t: t + 1)) for t in types}
        # one queue of a type may come before another at the same time: times differ by edge
        self.net = qt.QueueNetwork(g, q_classes=cls, q_args=args, adjust_graph=False)
        self.edges = sorted((v, u) for v in adj for u in adj[v])
        self.nE = len(self.edges)
        self.type = {k: adj[e[0]][e[1]] for k, e in enumerate(self.edges)}
        for k in range(self.nE):
            assert tuple(self.net.edge2queue[k].edge[:2]) == self.edges[k], 'edge order'

    def arrival(self, ty):
        def f(t):
            self.calls.append(ty)
            return t + 1
        return f

    def chk(self, c, label, **info):
        chk(self.ctx, c, label, 'C16', **info)


def some(m):
    """The queues that a selection may or may not contain: all of a small network."""
    return range(m.nE) if m.nE < 9 else (0, 2, 10, m.nE - 1)


def sel_queues(ctx, m):
    """Edge indices, in any container."""
    form = ctx.choose(6, 'container')
    if form == 0:
        k = ctx.int('queue', ge=0, le=m.nE - 1)
        k = int(k)
        return [k], (k if ctx.choose(2, 'numpy integer') == 0 else _np.int64(k))
    mask = [k for k in some(m) if bool(ctx.bool('in'))]
    if not mask:
        raise PathBound()
    if ctx.choose(2, 'reversed'):
        mask = mask[::-1]
    c = [list, tuple, set, _np.array, iter][form - 1]
    if form == 5:
        return mask, list(mask) if len(mask) == 1 else range(min(mask), max(mask) + 1) if sorted(mask) == list(
            range(min(mask), max(mask) + 1)) else tuple(mask)
    return mask, c(mask)


def sel_edges(ctx, m):
    form = ctx.choose(7, 'container')
    if form < 3:
        k = int(ctx.int('edge', ge=0, le=m.nE - 1))
        e = m.edges[k]
        return [k], [tuple(e), list(e), _np.array(e)][form]
    mask = [k for k in some(m) if bool(ctx.bool('in'))]
    if not mask:
        raise PathBound()
    if ctx.choose(2, 'reversed'):
        mask = mask[::-1]
    es = [m.edges[k] for k in mask]
    arg = [lambda: [tuple(e) for e in es], lambda: tuple(tuple(e) for e in es), lambda: _np.array(es),
           lambda: [list(e) for e in es]][form - 3]()
    return mask, arg


def sel_types(ctx, m):
    ts = sorted(set(m.type.values()))
    form = ctx.choose(5, 'container')
    if form == 0:
        t = ctx.int('type', ge=0, le=max(ts) + 1)
        t = int(t)
        names, arg = [t], (t if ctx.choose(2, 'numpy integer') == 0 else _np.int64(t))
    else:
        names = [t for t in ts if bool(ctx.bool('in'))]
        if not names:
            raise PathBound()
        arg = [list, tuple, set, _np.array][form - 1](names)
    return [k for k in range(m.nE) if m.type[k] in names], arg


def named(ctx, m, how, initialize=False):
    if how == 'queues':
        ks, a = sel_queues(ctx, m)
        return ks, dict(queues=a)
    if how == 'edge':
        ks, a = sel_edges(ctx, m)
        return ks, {'edges' if initialize else 'edge': a}
    if how == 'edge_type':
        ks, a = sel_types(ctx, m)
        return ks, dict(edge_type=a)
    return list(range(m.nE)), {}


def collecting(ctx, topo='small', how='queues', op='start'):
    m = Sel(ctx, topo, ctx.choose(2, 'order'))
    ks, kw = named(ctx, m, how)
    was = {k: ctx.bool('collecting') for k in range(m.nE)}
    for k, v in was.items():
        m.net.edge2queue[k].collect_data = v
    (m.net.start_collecting_data if op == 'start' else m.net.stop_collecting_data)(**kw)
    for k in range(m.nE):
        want = (op == 'start') if k in ks else was[k]
        got = m.net.edge2queue[k].collect_data
        m.chk(engine.Iff(got, want) if ctx.symbolic else bool(got) == want, 'collection is changed for exactly the queues named',
              k=k, named=ks, arg=kw)
    ctx.observe('on', [m.net.edge2queue[k].collect_data for k in range(m.nE)])
    ctx.cover('selected some', 0 < len(ks) < m.nE)


def filled(ctx, m):
    """Every queue that can has recorded visits: two agents moved about."""
    for k in range(m.nE):
        m.net.edge2queue[k].collect_data = True
    live = [k for k in range(m.nE) if m.type[k] != 0]
    if live:
        with engine.calm(ctx, 0) if m.nE > 8 else contextlib.nullcontext():
            m.net.initialize(queues=live)
            m.net.simulate(n=3 * m.nE)
    return {k: [list(r) for v in m.net.edge2queue[k].data.values() for r in v] for k in range(m.nE)}


def data(ctx, topo='small', how='queues', op='clear'):
    m = Sel(ctx, topo, ctx.choose(2, 'order'))
    rows = filled(ctx, m)
    ks, kw = named(ctx, m, how)
    if op == 'clear':
        m.net.clear_data(**kw)
        for k in range(m.nE):
            got = [list(r) for v in m.net.edge2queue[k].data.values() for r in v]
            m.chk(got == ([] if k in ks else rows[k]), 'data is cleared for exactly the queues named', k=k, named=ks, arg=kw)
        ctx.observe('left', [len(m.net.edge2queue[k].data) for k in range(m.nE)])
    elif op == 'queues':
        got = m.net.get_queue_data(**kw)
        count = {k: sum(1 for r in got if r[5] == k) for k in range(m.nE)}
        for k in range(m.nE):
            m.chk(count[k] == (len(rows[k]) if k in ks else 0), 'data comes from exactly the queues named', k=k, named=ks,
                  got=count[k], arg=kw)
        m.chk(len(got) == sum(count.values()), 'data comes from existing queues')
        ctx.observe('count', count)
    else:
        got = m.net.get_agent_data(**kw)
        count = {k: sum(1 for a in got for r in got[a] if r[5] == k) for k in range(m.nE)}
        for k in range(m.nE):
            m.chk(count[k] == (len(rows[k]) if k in ks else 0), 'data comes from exactly the queues named', k=k, named=ks,
                  got=count[k], arg=kw)
        ctx.observe('count', count)
    ctx.cover('selected some', 0 < len(ks) < m.nE)


def initialize(ctx, topo='small', how='queues', most=None):
    m = Sel(ctx, topo, ctx.choose(2, 'order'))
    live = [k for k in range(m.nE) if m.type[k] != 0]
    if how == 'nActive':
        n = ctx.int('nActive', ge=-1, le=m.nE + 2)
        if ctx.choose(3, 'kind of number'):
            n = [2.0, '2', None, (1,)][ctx.choose(4, 'number')]
        try:
            m.net.initialize(n)
            err = None
        except (TypeError, ValueError, qt.QueueingToolError) as e:
            err = type(e).__name__
        on = [k for k in range(m.nE) if bool(m.net.edge2queue[k].active)]
        if not isinstance(n, (int, SymNum)):
            m.chk(err == 'TypeError' or (isinstance(n, float) and err is not None), 'a number of queues is an integer', n=n,
                  err=err)
            m.chk(on == [], 'a refused initialization activates nothing', on=on)
            ctx.cover('refused')
            return
        n = int(n)
        if n < 1:
            m.chk(err == 'ValueError', 'a number of queues is positive', n=n, err=err)
            m.chk(on == [], 'a refused initialization activates nothing', on=on)
        elif not live:
            m.chk(err == 'QueueingToolError', 'initializing terminal queues only is refused', err=err)
            m.chk(on == [], 'a refused initialization activates nothing', on=on)
        else:
            m.chk(err is None, 'a positive number of queues is accepted', n=n, err=err)
            m.chk(len(on) == min(n, len(live)), 'as many queues are activated as asked for', n=n, on=on)
            m.chk(all(k in live for k in on), 'terminal queues are never activated', on=on)
            ctx.cover('some at random')
        ctx.observe('on', on)
        return
    ks, kw = named(ctx, m, how, True)
    if how == 'all':
        return
    err = None
    try:
        m.net.initialize(**kw)
    except qt.QueueingToolError:
        err = 'QueueingToolError'
    on = [k for k in range(m.nE) if bool(m.net.edge2queue[k].active)]
    want = [k for k in sorted(set(ks)) if k in live]
    if not want:
        m.chk(err == 'QueueingToolError', 'initializing terminal queues only is refused', named=ks, err=err)
        m.chk(on == [], 'a refused initialization activates nothing', on=on)
        ctx.cover('refused')
    else:
        m.chk(err is None, 'queues that are not terminal can be initialized', named=ks, err=err)
        m.chk(on == want, 'exactly the queues named and not terminal are active', on=on, want=want, arg=kw)
        for k in range(m.nE):
            m.chk((m.net.num_agents[k] > 0) == (k in want), 'external arrivals are scheduled at exactly those', k=k,
                  n=m.net.num_agents[k])
        ctx.cover('initialized')
    ctx.observe('on', on)


def clearing(ctx, topo='small', how='queues'):
    """clear() resets every queue."""
    m = Sel(ctx, topo, ctx.choose(2, 'order'))
    filled(ctx, m)
    m.net.clear()
    for k in range(m.nE):
        q = m.net.edge2queue[k]
        m.chk(not q.active, 'no queue is active after clear()', k=k)
        m.chk(q.num_system == 0 and q.number_queued() == 0, 'every queue is empty after clear()', k=k)
        m.chk(len(q.data) == 0, 'no data is left after clear()', k=k)
    ctx.cover('cleared')
