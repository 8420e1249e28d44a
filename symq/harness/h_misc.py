"""The small data structures and samplers: event heap (C22), union-find (C21),
thinning (C23), routing choice (C14)."""
from fractions import Fraction
import copy

import engine
from engine import And, Or, Not, Min, Sum, SymNum, SymBool, PathBound

import queueing_tool as qt
from queueing_tool.network.priority_queue import PriorityQueue
from queueing_tool.union_find import UnionFind
from queueing_tool.queues.queue_servers import poisson_random_measure
import numpy as _np

INF = float('inf')


def chk(ctx, c, label, *tags, **info):
    ctx.check_that(c, label, tags, **info)


# ---------------------------------------------------------------- C22

def script(k):
    """A fixed sequence of numbers."""
    x = 12345 + 6789 * k
    while True:
        x = (x * 1103515245 + 12345) % 2 ** 31
        yield x >> 8


def heap(ctx, nodes=3, init=2, ops=4, drain=True, times='free', pops=2, pre=0, seed=0):
    """Any initial content, then any sequence of pushes and pops, then pops until empty (after `pre` given pushes and
    pops)."""
    latest = {}
    keys = []
    n0 = ctx.choose(min(init, nodes) + 1, 'initial size')
    # nodes are interchangeable: they are named in order of first use, from the top
    used = [] if not pre else list(range(nodes))

    def node(c):
        if c == len(used):
            used.append(nodes - 1 - c)
        return used[c]

    for i in range(n0):
        k = node(i)
        t = ctx.real('t', ge=0)
        keys.append((t, k))
        latest[k] = t
    if n0 or ctx.choose(2, 'how it is made'):
        h = PriorityQueue(keys, nodes)
    else:
        h = PriorityQueue([], nodes)
    chk(ctx, h.size == n0, 'the initial size is the number of keys', 'C22')
    stored = [[(t, k) for t, k in keys]]
    last_pop = [None]

    def pop():
        r = h.pop()
        if not latest:
            chk(ctx, r is None, 'an empty heap says so', 'C22', got=r)
            if r is None:
                chk(ctx, h.size == 0, 'an empty heap has size 0', 'C22', size=h.size)
            ctx.cover('popped empty')
            return None
        chk(ctx, r is not None, 'a heap with entries returns one', 'C22', latest=latest)
        if r is None:
            raise PathBound()
        t, k = r
        chk(ctx, k in latest, 'each entry is returned at most once and never outdated', 'C22', got=r, latest=latest)
        if k not in latest:
            raise PathBound()
        chk(ctx, t == latest[k], 'the time returned is the latest one given', 'C22', got=t, want=latest[k])
        chk(ctx, t == Min(list(latest.values())), 'the earliest valid time comes first', 'C22', got=t, latest=latest)
        del latest[k]
        chk(ctx, h.size >= len(latest), 'no entry is dropped', 'C22')
        return r

    rnd = script(seed)
    for i in range(pre):
        w = next(rnd) % (nodes + nodes // 3)
        if w >= nodes:
            pop()
        else:
            latest[w] = next(rnd) % 64 / 4.0
            h.push(latest[w], w)
    given = {k: latest.get(k, -1) for k in range(nodes)}
    for i in range(ops):
        if pre:
            w = ctx.choose(4, 'operation')
            if w:       # one of the nodes, those with an entry first
                have = sorted(latest, key=lambda k: (given[k], k))
                pick = [have[0], have[-1]] if have else [0, 1]
                w = 1 + (pick[w - 1] if w < 3 else next(iter([k for k in range(nodes) if k not in latest] or [nodes // 2])))
        else:
            w = ctx.choose(min(nodes, len(used) + 1) + 1, 'operation')
        if w == 0:
            pop()
        else:
            w = node(w - 1) if not pre else w - 1
            t = ctx.real('t', ge=0)
            h.push(t, w)
            if w in latest:
                ctx.cover('an entry is superseded')
            latest[w] = t
            chk(ctx, h.size >= len(latest), 'no entry is dropped', 'C22')
        ctx.observe('size', int(h.size))
    if drain:
        while latest:
            r = pop()
            ctx.observe('pop', list(r))
        if pop() is None:
            ctx.cover('drained')
        pop()


def heap_sort(ctx, n=5, push=False):
    """All distinct nodes: built in one go or pushed one by one, popped to the end."""
    ts = [ctx.real('t', ge=0) for _ in range(n)]
    if push:
        h = PriorityQueue([], n)
        for k, t in enumerate(ts):
            h.push(t, k)
    else:
        h = PriorityQueue([(t, k) for k, t in enumerate(ts)], n)
    left = dict(enumerate(ts))
    chk(ctx, h.size == n, 'every entry is stored', 'C22')
    for i in range(n):
        r = h.pop()
        chk(ctx, r is not None and r[1] in left, 'each entry is returned exactly once', 'C22', got=r)
        if r is None or r[1] not in left:
            raise PathBound()
        chk(ctx, r[0] == left[r[1]], 'the time returned is the one given', 'C22')
        chk(ctx, And(*[r[0] <= t for t in left.values()]), 'the earliest valid time comes first', 'C22')
        del left[r[1]]
        ctx.observe('pop', int(r[1]))
    chk(ctx, h.pop() is None, 'an empty heap says so', 'C22')
    ctx.cover('drained')


# ---------------------------------------------------------------- C21

def unions(ctx, n=4, ops=5, strings=False, only=False, pre=0, seed=0):
    """Every sequence of unions and finds over n elements (interchangeable, so
    named in order of first use) against the true partition."""
    els = ['e%d' % i for i in range(n)] if strings else list(range(n))
    u = UnionFind(els)
    part = {e: {e} for e in els}

    def same(a, b):
        return part[a] is part[b]

    def state():
        chk(ctx, u.nClusters == len(set(id(s) for s in part.values())), 'nClusters is the number of clusters', 'C21')

    used = [-1]
    rnd = script(seed)
    for _ in range(pre):            # given unions and questions
        a, b = els[next(rnd) % n], els[next(rnd) % n]
        if next(rnd) % 4 == 0:
            chk(ctx, (u.find(a) == u.find(b)) == same(a, b), 'find agrees with the partition', 'C21')
            continue
        u.union(a, b)
        s = part[a] | part[b]
        for e in s:
            part[e] = s
        used[0] = n
        state()

    def element(name):
        k = int(ctx.int(name, ge=0, le=min(n - 1, used[0] + 1)))
        used[0] = max(k, used[0])
        return els[k]

    state()
    for i in range(ops):
        op = 0 if only or i == 0 else ctx.choose(3, 'operation')
        a = element('a')
        if op == 0:
            b = element('b')
            if same(a, b):
                ctx.cover('repeated union')
            u.union(a, b)
            s = part[a] | part[b]
            for e in s:
                part[e] = s
        elif op == 1:
            b = element('b')
            chk(ctx, (u.find(a) == u.find(b)) == same(a, b), 'find agrees with the partition', 'C21')
        else:
            chk(ctx, u.size(a) == len(part[a]), 'size is the size of the cluster', 'C21', got=u.size(a))
        state()
    lead = {}
    for e in els:                # each question as the first one asked
        w = copy.deepcopy(u)
        chk(ctx, w.size(e) == len(part[e]), 'size is the size of the cluster', 'C21', e=e)
        w = copy.deepcopy(u)
        chk(ctx, w.find(e) in part[e], 'the leader of a cluster is one of its members', 'C21', e=e)
    for e in els:
        l = u.find(e)
        chk(ctx, l in part[e], 'the leader of a cluster is one of its members', 'C21')
        chk(ctx, u.size(e) == len(part[e]), 'size is the size of the cluster', 'C21')
        for o in els:
            chk(ctx, (u.find(o) == u.find(e)) == same(o, e), 'find agrees with the partition', 'C21')
    ctx.observe('clusters', int(u.nClusters))
    ctx.cover('done')


# ---------------------------------------------------------------- C23

def thinning(ctx, most=3, mode='free'):
    """poisson_random_measure against the definition of thinning."""
    t0 = ctx.real('t0')
    mx = ctx.real('rate_max', gt=0) if mode != 'unit' else 1
    cands, rates = [], []

    def rate(t):
        cands.append(t)
        if mode == 'max':
            r = mx
        elif mode == 'zero':
            r = 0
        else:
            r = ctx.real('rate', ge=0)
            ctx.assume(r <= mx)
        rates.append(r)
        if len(cands) > most:
            raise PathBound()
        return r

    del ctx.draws[:]
    del ctx.draw_scales[:]
    try:
        out = poisson_random_measure(t0, rate, mx)
    except PathBound:
        if mode == 'max':
            chk(ctx, False, 'at the maximal rate the first candidate is accepted', 'C23')
        gaps(ctx, t0, mx, cands, rates, None)
        raise
    chk(ctx, mode != 'zero', 'a rate of zero accepts no candidate', 'C23')
    chk(ctx, len(cands) >= 1, 'the rate is evaluated before anything is accepted', 'C23')
    if not cands:
        raise PathBound()
    chk(ctx, out == cands[-1], 'the time returned is the candidate that was accepted', 'C23', out=out, cand=cands[-1])
    if mode == 'max':
        chk(ctx, len(cands) == 1, 'at the maximal rate the first candidate is accepted', 'C23')
    gaps(ctx, t0, mx, cands, rates, len(cands) - 1)
    ctx.observe('out', out)
    ctx.cover('accepted')
    ctx.cover('accepted after a rejection', len(cands) > 1)


def gaps(ctx, t0, mx, cands, rates, accepted):
    """Candidates are the partial sums of exponential gaps; candidate i is
    accepted iff its uniform draw times rate_max is below the rate there."""
    ex = [v for k, v in ctx.draws if k == 'exponential']
    us = [v for k, v in ctx.draws if k == 'uniform']
    chk(ctx, len(ex) == len(cands), 'one exponential gap per candidate', 'C23', ex=len(ex), cands=len(cands))
    chk(ctx, len(us) == len(cands) or (accepted is None and len(us) >= len(cands) - 1),
        'one uniform draw per candidate', 'C23', us=len(us))
    if len(ex) != len(cands) or len(us) < len(cands) - 1:
        raise PathBound()
    prev = t0
    for i, c in enumerate(cands):
        # ex[i] / scale is a standard exponential
        if ctx.symbolic:
            chk(ctx, c - prev == unit(ctx, i, ex) / mx, 'gaps are exponential with the maximal rate', 'C23',
                gap=c - prev)
        else:
            chk(ctx, abs((c - prev) * mx - unit(ctx, i, ex)) <= 1e-9 * max(1.0, abs(c) * mx, abs(t0) * mx),
                'gaps are exponential with the maximal rate', 'C23', gap=c - prev)
        prev = c
        if i < len(us):
            u = us[i]
            if accepted is None or i < accepted:
                if i < len(cands) - 1:
                    chk(ctx, u * mx >= rates[i], 'a candidate is rejected only above its rate', 'C23', u=u, r=rates[i])
            elif i == accepted:
                chk(ctx, u * mx < rates[i], 'a candidate is accepted only below its rate', 'C23', u=u, r=rates[i])


def unit(ctx, i, ex):
    """Draw i as a standard exponential."""
    return ex[i] / ctx.draw_scales[i]


# ---------------------------------------------------------------- C14

class FakeNet(object):
    """Only the documented attributes agents use to find their way."""


def vector(ctx, n, how):
    """n probabilities: free reals summing to one, zeros allowed."""
    if how in ('given', 'some'):        # two of them arbitrary, or none
        rnd = script(n)
        p = [next(rnd) % 3 % 2 * (1 + next(rnd) % 7) / 64.0 for _ in range(n - 1)]
        p[0], p[-1] = 0, 0
        p.insert(n // 2, 1 - sum(p))
        if how == 'some':
            x = ctx.real('p', ge=0, le=1)
            ctx.assume(x <= p[n // 2])
            p[1], p[n // 2] = p[1] + x, p[n // 2] - x
        return p
    if how == 'free':
        p = [ctx.real('p', ge=0, le=1) for _ in range(n)]
        ctx.assume(Sum(p) == 1)
        return p
    # almost one: what set_transitions accepts
    p = [ctx.real('p', ge=0, le=1) for _ in range(n)]
    s = Sum(p)
    ctx.assume(And(s >= 1 - 2.0 ** -17, s <= 1 + 2.0 ** -17))
    return p


def star(n, loop=False):
    adj = {0: [1], 1: list(range(2, 2 + n - (1 if loop else 0))) + ([1] if loop else [])}
    for k in range(2, 2 + n):
        adj[k] = [k]
    return adj


def exact(p):
    """Whether the sums of the first doubles of p are exact, whatever the order of the additions."""
    return all(Fraction(sum(p[:i])) == sum(map(Fraction, p[:i])) for i in range(1, len(p) + 1))


def routing(ctx, n=3, how='free', via='matrix', loop=False, agent='Agent'):
    """Probabilities set through the API, then every random number."""
    adj = star(n, loop)
    g = qt.adjacency2graph(adj, edge_type={v: {u: (0 if v == u and v > 1 else 1) for u in us} for v, us in adj.items()},
                           adjust=1)
    net = qt.QueueNetwork(g)
    nV = net.num_vertices
    targets = sorted(adj[1])
    p = vector(ctx, n, how)
    if via == 'matrix':
        mat = _np.zeros((nV, nV), object if ctx.symbolic else float)
        for v in adj:
            if v == 1:
                for u, x in zip(targets, p):
                    mat[v, u] = x
            else:
                mat[v, adj[v][0]] = 1
        net.set_transitions(mat)
    else:
        order = list(zip(targets, p))
        if via == 'rdict':
            order.reverse()
        net.set_transitions({1: dict(order)})
    a = getattr(qt, agent)()
    came = (1, 1) if loop and ctx.choose(2, 'from the loop') else (0, 1)
    e = net.edge2queue[net.g.edge_index[came]].edge
    del ctx.draws[:]
    k = a.desired_destination(net, e)
    us = [v for w, v in ctx.draws if w == 'uniform']
    edge = net.edge2queue[k].edge
    chk(ctx, edge[0] == 1, 'the edge taken leaves the vertex the agent reached', 'C14', edge=edge)
    if edge[0] != 1:
        raise PathBound()
    i = targets.index(edge[1])
    chk(ctx, p[i] > 0, 'an edge of probability zero is never taken', 'C14', i=i, p=p)
    if n > 1:
        chk(ctx, len(us) == 1, 'one random number decides', 'C14', us=us)
        if len(us) == 1:
            u = us[0]
            lo, hi = Sum(p[:i]), Sum(p[:i + 1])
            tol = 0 if ctx.symbolic or exact(p) else 1e-9
            chk(ctx, lo <= u + tol, 'the number lies in the interval of the edge taken', 'C14', u=u, lo=lo)
            # above the last cumulative sum (sums below one) the last possible edge is taken
            last = And(*[x == 0 for x in p[i + 1:]])
            chk(ctx, Or(u - tol < hi, last), 'the number lies in the interval of the edge taken', 'C14', u=u, hi=hi)
    ctx.observe('edge', int(k))
    ctx.cover('routed')
    ctx.cover('routed to the last', i == n - 1)


def choice_fp(ctx, n=3, sums=True):
    """_choice on IEEE doubles: zero-probability choices are never made."""
    _choice = getattr(qt.queues.choice, '_choice', None)
    if _choice is None:
        ctx.cover('chosen')
        return
    p = [ctx.fp('p', 0.0, 1.0) for _ in range(n)]
    u = ctx.fp('u', 0.0, 1.0, open=True)
    s = p[0]
    for x in p[1:]:
        s = s + x
    ctx.assume(And(s >= 1 - 2.0 ** -17, s <= 1 + 2.0 ** -17))
    import array as _array
    pr = qt.queues.choice.array.array('d', p) if hasattr(qt.queues.choice, 'array') else _array.array('d', p)
    k = _choice(pr, u, n)
    k = int(k)
    chk(ctx, 0 <= k < n, 'a choice among those offered', 'C14')
    chk(ctx, p[k] > 0, 'a choice of probability zero is never made', 'C14', k=k, p=p, u=u)
    ctx.observe('k', k)
    ctx.cover('chosen', k == n - 1)


def greedy(ctx, n=3, most=3, loop=False):
    """A greedy agent looks at the queues that are there."""
    adj = star(n, loop)
    et = {v: {u: (0 if v == u and v > 1 else 1) for u in us} for v, us in adj.items()}
    g = qt.adjacency2graph(adj, edge_type=et, adjust=1)
    net = qt.QueueNetwork(g)
    targets = sorted(adj[1])
    q = {}
    for u in targets:
        k = net.g.edge_index[(1, u)]
        q[u] = ctx.int('queued', ge=0, le=most)
        for _ in range(int(q[u])):
            net.edge2queue[k].queue.append(qt.Agent())
        # those in service do not stand in line
        net.edge2queue[k].num_system = int(q[u]) + (ctx.choose(2, 'busy') if n < 4 else 1 - (u % 2))
    a = qt.GreedyAgent()
    came = (1, 1) if loop and ctx.choose(2, 'from the loop') else (0, 1)
    e = net.edge2queue[net.g.edge_index[came]].edge
    k = a.desired_destination(net, e)
    edge = net.edge2queue[k].edge
    chk(ctx, edge[0] == 1, 'the edge taken leaves the vertex the agent reached', 'C14', edge=edge)
    if edge[0] != 1:
        raise PathBound()
    chk(ctx, And(*[q[edge[1]] <= v for v in q.values()]), 'a greedy agent joins a shortest line', 'C14',
        took=edge[1], lines=q)
    order = [net.edge2queue[j].edge[1] for j in net.out_edges[1]]
    chk(ctx, And(*[q[edge[1]] < q[u] for u in order[:order.index(edge[1])]]), 'of equally short lines the first is joined', 'C14',
        took=edge[1], lines=q, order=order)
    ctx.observe('edge', int(k))
    ctx.cover('greedy')
