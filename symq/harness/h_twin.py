"""clear() is a fresh start, copy() an equal and independent twin (C08).

Two queues or networks get the same decisions (arrival gaps, service times,
routing draws) from one symbolic tape and are compared after every event."""
import contextlib

import engine
from engine import And, Or, Not, Iff, Sum, SymNum, SymBool, PathBound

import numpy as _np
import queueing_tool as qt

INF = float('inf')


class Tape(object):
    """Decisions by name and position; every runner reads it from its own place."""

    def __init__(self, ctx, limit):
        self.ctx = ctx
        self.vals = {}
        self.pos = {}
        self.limit = limit

    def get(self, name, make):
        i = self.pos.get(name, 0)
        self.pos[name] = i + 1
        if (name, i) not in self.vals:
            self.vals[name, i] = make(name)
        return self.vals[name, i]

    def gap(self, k, t):
        if self.pos.get('gap%s' % k, 0) >= self.limit:
            return INF
        return t + self.get('gap%s' % k, lambda n: self.ctx.real(n, ge=0))

    def svc(self, k, t):
        return t + self.get('svc%s' % k, lambda n: self.ctx.real(n, ge=0))

    def draw(self):
        return self.get('u', lambda n: self.ctx.real(n, ge=0, lt=1))


TAPE = None


def functions(k):
    """Plain functions: deepcopy leaves them alone."""
    def arrival_f(t):
        return TAPE.gap(k, t)

    def service_f(t):
        return TAPE.svc(k, t)
    return arrival_f, service_f


def chk(ctx, c, label, **info):
    ctx.check_that(c, label, ('C08',), **info)


def qstate(q):
    """Everything a user can see of a queue."""
    d = {'time': q.time, 'now': q.current_time, 'in system': q.num_system, 'queued': q.number_queued(),
         'next': q.next_event_description(), 'active': bool(q.active), 'servers': q.num_servers,
         'departures': q.num_departures, 'collect': bool(q.collect_data),
         'arrivals': list(q.num_arrivals)}
    if hasattr(q, 'num_blocked'):
        d['blocked'] = q.num_blocked
        d['full'] = q.at_capacity()
    if hasattr(q, 'over_max'):
        d['over'] = q.over_max
    if hasattr(q, 'net_data'):
        d['known'] = [[x for x in r] for r in q.net_data]
    d['agents'] = [a.agent_id for a in q.queue]
    d['palette'] = [[k, _flat(c)] for k, c in sorted(q.colors.items())]
    d['data'] = [[a, [list(r) for r in q.data[a]]] for a in sorted(q.data)]
    return d


def nullstate(q):
    return {'data': [[a, [list(r) for r in q.data[a]]] for a in sorted(q.data)], 'collect': bool(q.collect_data),
            'active': bool(q.active)}


def nstate(net):
    d = {'time': net.time, 'now': net.current_time, 'events': net.num_events, 'most': net.max_agents,
         'agents': [x for x in net.num_agents], 'next': list(net.next_event_description()),
         'blocking': net.blocking}
    for k, q in enumerate(net.edge2queue):
        d['q%d' % k] = nullstate(q) if isinstance(q, qt.NullQueue) else qstate(q)
    tr = net.transitions(False)
    d['transitions'] = [[v, u, tr[v][u]] for v in sorted(tr) for u in sorted(tr[v])]
    d['edges'] = [[e[0], e[1], net.g.edge_index[e], net.g.ep(e, 'edge_type')] for e in sorted(net.g.edges())]
    d['colors'] = [_flat(net.g.ep(e, 'edge_color')) for e in sorted(net.g.edges())]
    d['vertices'] = [[_flat(net.g.vp(v, 'vertex_color')), _flat(net.g.vp(v, 'vertex_fill_color'))]
                     for v in sorted(net.g.nodes())]
    d['palette'] = [[k, _flat(c)] for k, c in sorted(net.colors.items())]
    d['places'] = None if net.g.pos is None else [_flat(p) for p in net.g.pos]
    d['ways'] = [[list(x) for x in net.out_edges], [list(x) for x in net.in_edges]]
    return d


def _flat(x):
    return [y for y in x] if x is not None else None


def same(a, b):
    if isinstance(a, dict):
        return And(*([set(a) == set(b)] + [same(a[k], b[k]) for k in a if k in b]))
    if isinstance(a, (list, tuple)):
        return And(*([len(a) == len(b)] + [same(x, y) for x, y in zip(a, b)]))
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return Iff(a, b)
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return a == b
    if isinstance(a, float) or isinstance(b, float):
        if a == b:
            return True
        return max(abs(a), abs(b)) < INF and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def differ(a, b):
    for k in a:
        if k in b and isinstance(a[k], dict):
            yield from (('%s.%s' % (k, x), y, z) for x, y, z in differ(a[k], b[k]))
        else:
            c = same(a[k], b.get(k))
            if c is False or (c is not True):
                yield k, a[k], b.get(k)


def compare(ctx, a, b, label):
    chk(ctx, same(a, b), label, differ=[d for d in differ(a, b)][:3])


def make_queue(ctx, kind, s, b, collect, cap, dt, **kw):
    af, sf = functions(0)
    kw.update(num_servers=s, arrival_f=af, service_f=sf, edge=(0, 1, 2, 1), collect_data=collect,
              colors={})
    if kind != 'QueueServer':
        kw['qbuffer'] = b
    if kind == 'InfoQueue':
        kw['net_size'] = 3
    if cap is not None:
        kw['active_cap'] = cap
    if dt is not None:
        kw['deactive_t'] = dt
    return getattr(qt, kind)(**kw)


def forget(q):
    for a in list(q.data):
        for row in q.data[a]:
            row[3] = -1


def warming(ctx, given, **scale):
    """Whether the steps before the copy are arbitrary, or those of one given run."""
    return contextlib.nullcontext() if given is None else engine.calm(ctx, given, **scale)


def queue_twin(ctx, kind='QueueServer', mode='copy', warm=3, n=3, arrivals=3, smax=2, limits=False, room=None, given=None):
    global TAPE
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = ctx.int('buffer', ge=0, le=1) if kind != 'QueueServer' else 0
    s, b = room or (s, b)
    cap = ctx.int('active_cap', ge=1, le=arrivals) if limits else None
    dt = ctx.real('deactive_t', ge=0) if limits else None
    collect = bool(ctx.choose(2, 'collect'))
    first, second = Tape(ctx, arrivals), Tape(ctx, arrivals)
    second.vals = {}
    TAPE = first
    a = make_queue(ctx, kind, s, b, collect, cap, dt)
    with warming(ctx, given, gap=1, svc=4):
        a.set_active()
        for _ in range(warm):
            a.next_event()
    if mode == 'clear':
        if ctx.choose(2, 'inactive'):
            a.set_inactive()
        a.clear()
        c = make_queue(ctx, kind, s, b, collect, cap, dt)
        compare(ctx, qstate(a), qstate(c), 'a cleared queue is like a new one')
        starts = [second, Tape(ctx, arrivals)]
        starts[1].vals = second.vals
        for q, t in zip((a, c), starts):
            TAPE = t
            q.set_active()
        compare(ctx, qstate(a), qstate(c), 'a cleared queue is like a new one')
        ctx.cover('cleared')
    else:
        before = qstate(a)
        c = a.copy()
        compare(ctx, qstate(a), before, 'copying changes nothing')
        compare(ctx, qstate(c), before, 'a copy has the state of the original')
        chk(ctx, type(c) is type(a), 'a copy is of the same kind')
        starts = [first, Tape(ctx, arrivals)]
        starts[1].vals, starts[1].pos = first.vals, dict(first.pos)
        ctx.cover('copied')
    run(ctx, a, c, starts, n, qstate, lambda q: q.next_event(), 'queue',
        [lambda q: q.set_inactive(), lambda q: q.set_num_servers(3), lambda q: q.delay_service(),
         lambda q: q.clear(), lambda q: setattr(q, 'collect_data', not q.collect_data)] +
        ([lambda q: q.colors.update(edge_color=[0.25, 0.5, 0.75, 1.0]), forget] if mode == 'copy' else []))


def run(ctx, a, c, tapes, n, state, step, what, changes):
    """Both, in either order; the one that stands still does not change."""
    global TAPE
    sa, sc = [], []
    order = ctx.choose(2, 'who goes first')
    pair = [(a, tapes[0], sa, c), (c, tapes[1], sc, a)]
    if order:
        pair.reverse()
    for q, t, out, other in pair:
        still = state(other)
        TAPE = t
        for i in range(n):
            step(q)
            out.append(state(q))
        compare(ctx, state(other), still, 'what one %s does does not show in the other' % what)
    for x, y in zip(sa, sc):
        compare(ctx, x, y, 'both go on alike')
    ctx.observe('end', [x for x in (sa[-1]['now'],)] if sa else [])
    if changes:
        k = ctx.choose(len(changes), 'change')
        q, t, out, other = pair[0]
        still = state(other)
        TAPE = t
        changes[k](q)
        compare(ctx, state(other), still, 'what is done to one %s does not show in the other' % what)


TOPO = {
    'tandem': ({0: [1], 1: [2], 2: [2]},
               {(0, 1): 'QueueServer', (1, 2): 'LossQueue', (2, 2): 'NullQueue'}, [0]),
    'branch': ({0: [1], 1: [0, 2], 2: [2]},
               {(0, 1): 'QueueServer', (1, 0): 'LossQueue', (1, 2): 'NullQueue', (2, 2): 'NullQueue'}, [0]),
    'merge': ({0: [2], 1: [2], 2: [3], 3: [3]},
              {(0, 2): 'QueueServer', (1, 2): 'LossQueue', (2, 3): 'LossQueue', (3, 3): 'NullQueue'}, [0, 1]),
    'resource': ({0: [1], 1: [0]}, {(0, 1): 'ResourceQueue', (1, 0): 'ResourceQueue'}, [0]),
    'info': ({0: [1], 1: [0]}, {(0, 1): 'InfoQueue', (1, 0): 'InfoQueue'}, [0]),
}


def make_net(ctx, topo, s, b, collect, blocking, most):
    adj, kinds, act = TOPO[topo]
    edges = sorted(kinds)
    types = {v: {u: (0 if kinds[v, u] == 'NullQueue' else edges.index((v, u)) + 1) for u in us} for v, us in adj.items()}
    cls, args = {0: qt.NullQueue}, {0: {'collect_data': collect}}
    for k, e in enumerate(edges):
        if kinds[e] == 'NullQueue':
            continue
        af, sf = functions(k)
        cls[k + 1] = getattr(qt, kinds[e])
        args[k + 1] = dict(num_servers=s, arrival_f=af, service_f=sf, collect_data=collect)
        if kinds[e] != 'QueueServer':
            args[k + 1]['qbuffer'] = b
        if kinds[e] == 'InfoQueue':
            args[k + 1]['net_size'] = len(edges)
    g = qt.adjacency2graph({v: list(us) for v, us in adj.items()}, edge_type=types, adjust=1)
    kw = {} if most is None else dict(max_agents=most)
    net = qt.QueueNetwork(g, q_classes=cls, q_args=args, blocking=blocking, **kw)
    return net, act


def repaint(net):
    for e in net.g.edges():
        net.g.set_ep(e, 'edge_color', [0.5, 0.25, 0.125, 1.0])
    for v in net.g.nodes():
        net.g.set_vp(v, 'vertex_fill_color', [0.5, 0.25, 0.125, 1.0])


def move(net):
    net.g.set_pos({v: _np.array([v, -v]) for v in net.g.nodes()})
    for e in net.g.edges():
        net.g.set_ep(e, 'edge_type', 7)


def net_twin(ctx, topo='tandem', mode='copy', warm=3, n=3, arrivals=2, blocking='BAS', most=None, bmax=1, room=None,
             given=None):
    global TAPE
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    mx = ctx.int('max_agents', ge=1, le=most) if most else None
    s, b = room or (1, b)
    collect = bool(ctx.choose(2, 'collect'))
    first, second = Tape(ctx, arrivals), Tape(ctx, arrivals)
    ctx.tape = lambda: TAPE.draw()
    try:
        TAPE = first
        a, act = make_net(ctx, topo, s, b, collect, blocking, mx)
        with warming(ctx, given, gap=2, svc=4):
            a.initialize(queues=act)
            for _ in range(warm):
                a.simulate(n=1)
        if mode == 'clear':
            a.clear()
            c, _ = make_net(ctx, topo, s, b, collect, blocking, mx)
            compare(ctx, nstate(a), nstate(c), 'a cleared network is like a new one')
            starts = [second, Tape(ctx, arrivals)]
            starts[1].vals = second.vals
            for q, t in zip((a, c), starts):
                TAPE = t
                try:
                    q.simulate(n=1)
                    chk(ctx, False, 'a cleared network has to be initialized again')
                except qt.QueueingToolError:
                    pass
                q.initialize(queues=act)
            compare(ctx, nstate(a), nstate(c), 'a cleared network is like a new one')
            ctx.cover('network cleared')
        else:
            before = nstate(a)
            c = a.copy()
            compare(ctx, nstate(a), before, 'copying changes nothing')
            compare(ctx, nstate(c), before, 'a copy has the state of the original')
            starts = [first, Tape(ctx, arrivals)]
            starts[1].vals, starts[1].pos = first.vals, dict(first.pos)
            ctx.cover('network copied')
        adj = TOPO[topo][0]
        v = [v for v in adj if len(adj[v]) > 1]
        changes = [lambda q: q.start_collecting_data(), lambda q: q.stop_collecting_data(queues=0),
                   lambda q: q.clear_data(), lambda q: q.clear(), lambda q: q.initialize(queues=act),
                   lambda q: setattr(q, 'blocking', 'RS' if q.blocking == 'BAS' else 'BAS'),
                   lambda q: q.reset_colors()]
        if mode == 'copy':
            changes += [repaint, lambda q: q.colors.update(vertex_color=[0.25, 0.5, 0.75, 1.0]), move]
        if v:
            changes.append(lambda q: q.set_transitions({v[0]: {adj[v[0]][0]: 1.0}}))
        run(ctx, a, c, starts, n, nstate, lambda q: q.simulate(n=1), 'network', changes)
    finally:
        ctx.tape = None
