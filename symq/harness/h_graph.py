"""Building graphs and networks from adjacencies (C18)."""
import copy
import math

import networkx as nx
import numpy as _np

import engine
from engine import And, Or, Not, Sum, SymNum, SymBool, PathBound
import queueing_tool as qt

PAIRS = {
    1: [(0, 0)],
    2: [(0, 0), (0, 1), (1, 0), (1, 1)],
    3: [(0, 1), (1, 0), (1, 2), (2, 1), (2, 0), (2, 2)],
    4: [(0, 1), (1, 0), (1, 3), (3, 0), (3, 3), (2, 3)],
    12: [(0, 11), (0, 2), (2, 10), (10, 1), (1, 9), (9, 3), (3, 8), (8, 4), (4, 7), (7, 5), (5, 6), (6, 6), (11, 0), (10, 2)],
}
LIKELY = {12: [(2, 10), (11, 0)]}       # of a wide graph only these are symbolic


def chk(ctx, c, label, **info):
    ctx.check_that(c, label, ('C18',), **info)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return And(*([list(a) == list(b)] + [same(a[k], b[k]) for k in a if k in b]))
    if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray):
        return And(*([a.shape == b.shape] + [same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return And(*([len(a) == len(b)] + [same(x, y) for x, y in zip(a, b)]))
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if a is None or b is None:
            return a is b
        return a == b
    if isinstance(a, dict) or isinstance(a, _np.ndarray) or isinstance(b, (dict, _np.ndarray)):
        return False
    return a == b


def snap(x):
    """A structural copy; numbers are kept."""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snap(v) for v in x)
    if isinstance(x, _np.ndarray):
        return x.copy()
    return x


def some_edges(ctx, n):
    """Which of the candidate pairs are edges: one symbolic number each."""
    return [e for e in PAIRS[n] if sure(n, e) or bool(ctx.int('edge%d%d' % e, ge=0, le=1) == 1)]


def sure(n, e):
    """Of a wide graph most edges, their types and so on are given."""
    return n in LIKELY and e not in LIKELY[n]


def few(n, xs):
    """What to choose from in a wide graph."""
    return xs if n not in LIKELY else [xs[i] for i in (0, 2, len(xs) // 2, -1)]


def adjacency(ctx, n, edges, form, types):
    """-> the adjacency in the form asked for and the vertices it names."""
    order = list(range(n))
    if ctx.choose(2, 'order'):
        order.reverse()
    if form == 'matrix':
        m = _np.zeros((n, n), object if ctx.symbolic else float)
        for v, u in PAIRS[n]:
            if (v, u) in edges:
                w = ctx.real('weight')
                if not ctx.symbolic and w == 0:
                    w = 1.0
                ctx.assume(w != 0)
                m[v, u] = w
        return m, set(range(n))
    d = {}
    for v in order:
        us = [u for u in order if (v, u) in edges]
        if not us and form != 'dicts' and any(u == v for _, u in edges) and ctx.choose(2, 'leave out'):
            continue
        if form == 'lists':
            d[v] = us
        else:
            d[v] = {u: dict(types.get((v, u), {})) for u in us}
    return d, set(d) | set(u for _, u in edges)


def given_types(ctx, edges, how, low=0, most=None):
    """Symbolic types for the edges; some edges have none."""
    out = {}
    for e in edges:
        if how == 'none' or (most is not None and len(out) >= most):
            continue
        if len(edges) > 8 and sure(12, e):
            if how == 'all' or sum(e) % 3:
                out[e] = low + sum(e) % 4
        elif how == 'all' or ctx.choose(2, 'typed'):
            out[e] = ctx.int('type%d%d' % e, ge=low, le=5)
    return out


def build(ctx, n=3, form='lists', adjust=1, typed='some'):
    """adjacency2graph against what its documentation says."""
    edges = some_edges(ctx, n)
    inside, more = {}, {}
    if form == 'dicts':
        tys = given_types(ctx, edges, typed)
        for e in edges:
            inside[e] = {'w': ctx.real('w')}
            if e in tys:
                inside[e]['edge_type'] = tys[e]
    et = None
    if form != 'dicts' or typed == 'both':
        etform = ctx.choose(3, 'edge_type') if typed != 'none' else 0
        if etform == 1:
            more = given_types(ctx, edges, 'some')
            et = {}
            for (v, u), t in more.items():
                et.setdefault(v, {})[u] = t
        elif etform == 2:
            more = given_types(ctx, edges, 'some', low=1)
            et = _np.zeros((n, n), object if ctx.symbolic else int)
            for e, t in more.items():
                et[e] = t
    adj, vs = adjacency(ctx, n, edges, form, inside)
    before = snap((adj, et))
    g = qt.adjacency2graph(adj, edge_type=et, adjust=adjust)
    chk(ctx, same((adj, et), before), 'the adjacency and types given are not changed', before=before, after=(adj, et))
    ends = [v for v in vs if not any(e[0] == v for e in edges)]
    want = {e: more.get(e, inside.get(e, {}).get('edge_type', 1)) for e in edges}
    for v in ends:
        if adjust == 2:
            for e in edges:
                if e[1] == v:
                    want[e] = 0
        else:
            want[v, v] = 0
    chk(ctx, set(g.nodes()) == vs, 'the graph has exactly the vertices given', got=sorted(g.nodes()), want=sorted(vs))
    chk(ctx, set(g.edges()) == set(want) and g.number_of_edges() == len(want), 'the graph has exactly the edges given '
        '(and a loop at each terminal vertex if so adjusted)', got=sorted(g.edges()), want=sorted(want))
    for e in want:
        if e not in g.edges():
            continue
        got = g.adj[e[0]][e[1]]
        chk(ctx, same(got.get('edge_type'), want[e]), 'every edge has the type given, or the default', edge=e, got=got, want=want[e])
        if e in inside:
            chk(ctx, same(got.get('w'), inside[e]['w']), 'edges keep their other properties', edge=e, got=got)
        chk(ctx, set(got) <= {'edge_type', 'w'}, 'edges get no other properties', edge=e, got=got)
    ctx.cover('built')
    if ends:
        ctx.cover('terminal vertex')
    ctx.observe('types', [[e[0], e[1], g.adj[e[0]][e[1]]['edge_type']] for e in sorted(g.edges())])
    # and back
    d = qt.graph2dict(g)
    chk(ctx, same(d, {v: {u: g.adj[v][u] for u in g.adj[v]} for v in g.nodes()}) if isinstance(d, dict) else False,
        'graph2dict gives the adjacency back', got=d)
    li = qt.graph2dict(g, return_dict_of_dict=False)
    chk(ctx, {v: sorted(x) for v, x in li.items()} == {v: sorted(g.adj[v]) for v in g.nodes()} and
        all(isinstance(x, list) for x in li.values()), 'graph2dict gives the lists back', got=li)
    if vs:
        again = qt.adjacency2graph(d, adjust=adjust)
        chk(ctx, And(set(again.nodes()) == vs, set(again.edges()) == set(g.edges()),
                     *[same(again.adj[v][u].get('edge_type'), g.adj[v][u]['edge_type']) for v, u in g.edges()
                       if (v, u) in again.edges()]), 'building again from the dictionary gives the same graph',
            got=sorted(again.edges(data=True)))


def refused(ctx):
    """Anything but a dictionary or an array is refused."""
    x = [[(0, 1)], 'graph', 3, None, (1, 2), {1, 2}][ctx.choose(6, 'what')]
    try:
        qt.adjacency2graph(x)
        chk(ctx, False, 'an adjacency that is neither a dictionary nor an array is refused', what=x)
    except TypeError:
        ctx.cover('refused')
    for a in (1, 2):
        g = qt.adjacency2graph({}, edge_type={}, adjust=a)
        chk(ctx, g.number_of_nodes() == 0, 'an empty adjacency gives an empty graph')
    ctx.cover('nothing')


def earth(a, b):
    """The distance of two points of the earth, as the library defines it."""
    la, lo = [(y - x) / 2 for x, y in zip(a, b)]
    h = math.sin(la) ** 2 + math.cos(a[0]) * math.cos(b[0]) * math.sin(lo) ** 2
    return 2 * math.pi * 6371 * math.atan2(math.sqrt(h), math.sqrt(1 - h)) / 180


def lengths(ctx, n=3):
    """Every edge gets the distance between its own two ends."""
    import queueing_tool.graph.graph_preparation as gp
    edges = some_edges(ctx, n)
    ctx.assume(len(edges) > 0)
    dg = nx.DiGraph()
    dg.add_nodes_from(range(n)[::-1])
    dg.add_edges_from(edges, edge_type=1)
    pos = {v: [ctx.real('x'), ctx.real('y')] for v in range(n)}
    nx.set_node_attributes(dg, name='pos', values=pos)
    g = qt.QueueNetworkDiGraph(dg)
    asked, old = [], getattr(gp, '_calculate_distance', None)

    def distance(a, b):
        d = ctx.real('distance', ge=0)
        asked.append((list(a), list(b), d))
        return d

    def real_distance(a, b):
        asked.append((list(a), list(b), None))
        return old(a, b)
    # where distances are not asked from that function, fixed points do
    there = {0: [0.5, 0.25], 1: [1.25, -0.5], 2: [-0.75, 2.0], 3: [0.0, -1.5]}
    if old is not None:
        probe = nx.DiGraph([(0, 1)])
        nx.set_node_attributes(probe, name='pos', values={v: there[v] for v in (0, 1)})
        gp._calculate_distance = real_distance
        try:
            qt.add_edge_lengths(qt.QueueNetworkDiGraph(probe))
        finally:
            gp._calculate_distance = old
    if not asked:
        nx.set_node_attributes(dg, name='pos', values={v: there[v] for v in range(n)})
        h = qt.add_edge_lengths(qt.QueueNetworkDiGraph(dg))
        for v, u in edges:
            want = earth(there[v], there[u])
            chk(ctx, abs(h.ep((v, u), 'edge_length') - want) <= 0.00051, 'the length of an edge is the distance between its ends',
                edge=(v, u))
        ctx.cover('lengths')
        return
    del asked[:]
    gp._calculate_distance = distance
    try:
        h = qt.add_edge_lengths(g)
    finally:
        gp._calculate_distance = old
    for v, u in edges:
        got = h.ep((v, u), 'edge_length')
        near = [And(Or(And(same(a, pos[v]), same(b, pos[u])), And(same(a, pos[u]), same(b, pos[v]))), got - d <= 0.00051,
                    d - got <= 0.00051) for a, b, d in asked]
        chk(ctx, Or(*near), 'the length of an edge is the distance between its ends', edge=(v, u), got=got)
    ctx.cover('lengths')


def graph(ctx, n=3, ops=2, what=(0, 1, 2, 3, 4)):
    """QueueNetworkDiGraph: indices, properties, selections."""
    edges = some_edges(ctx, n)
    ctx.assume(len(edges) > 0)
    types = {e: sum(e) % 4 if sure(n, e) else ctx.int('type%d%d' % e, ge=0, le=3) for e in edges}
    how = ctx.choose(2, 'from')
    order = list(range(n))
    if ctx.choose(2, 'order'):
        order.reverse()
    if how:
        d = {v: {u: {'edge_type': types[v, u]} for u in order if (v, u) in edges} for v in order}
        g = qt.QueueNetworkDiGraph(d)
        for v in order:
            if not d[v]:
                edges.append((v, v))
                types[v, v] = 0
    else:
        dg = nx.DiGraph()
        dg.add_nodes_from(order)
        for v in order:
            for u in order:
                if (v, u) in edges:
                    dg.add_edge(v, u, edge_type=types[v, u])
        g = qt.QueueNetworkDiGraph(dg)
    edges.sort()
    chk(ctx, g.edge_index == {e: k for k, e in enumerate(edges)}, 'edges are numbered consecutively in sorted order',
        got=sorted(g.edge_index.items()))
    truth = {e: {'edge_type': types[e]} for e in edges}
    vtruth = {v: {} for v in order}
    color = ctx.choose(2, 'colors')
    if color:
        g.new_edge_property('edge_color')
        g.new_vertex_property('vertex_color')
        g.new_vertex_property('vertex_fill_color')
        for e in edges:
            truth[e]['edge_color'] = None
        for v in order:
            vtruth[v].update(vertex_color=None, vertex_fill_color=None)
    for i in range(ops):
        k = what[ctx.choose(len(what), 'operation')]
        if k == 0:
            some = few(n, edges)
            e = some[ctx.choose(len(some), 'edge')]
            x = ctx.real('length')
            g.set_ep(e, 'length', x)
            truth[e]['length'] = x
        elif k == 1:
            some = few(n, order)
            v = some[ctx.choose(len(some), 'vertex')]
            x = ctx.real('size')
            g.set_vp(v, 'size', x)
            vtruth[v]['size'] = x
        elif k == 2:
            some = few(n, edges)
            e = some[ctx.choose(len(some), 'edge')]
            if color and g.edge_index[e] >= len(g.edge_color):
                return
            c = [0.1 * (i + 1), 0.2, 0.3, 1.0]
            g.set_ep(e, 'edge_color', c)
            truth[e]['edge_color'] = c
            chk(ctx, g.ep(e, 'edge_color') == c, 'an edge property reads back for its edge only', edge=e)
            if not color:
                continue
            chk(ctx, list(g.edge_color[edges.index(e)]) == c, 'the colour of an edge is at its index in the colour array', edge=e)
            some = few(n, order)
            v = some[ctx.choose(len(some), 'vertex')]
            for name in ('vertex_color', 'vertex_fill_color'):
                c = [0.4, 0.1 * (i + 1), 0.5 if name == 'vertex_color' else 0.6, 1.0]
                g.set_vp(v, name, c)
                vtruth[v][name] = c
                chk(ctx, list(getattr(g, name)[v]) == c, 'the colour of a vertex is at its index in the colour array', v=v)
        elif k == 3:
            free = few(n, [(v, u) for v in order for u in order])
            e = free[ctx.choose(len(free), 'new edge')]
            old = e in truth
            x = ctx.int('new type', ge=0, le=3)
            g.add_edge(e[0], e[1], edge_type=x)
            truth.setdefault(e, {})['edge_type'] = x
            if not old:
                edges.append(e)
                ctx.cover('edge added')
        elif k == 4:
            g.new_edge_property('length')
            g.new_vertex_property('size')
            for e in truth:
                truth[e]['length'] = None
            for v in vtruth:
                vtruth[v]['size'] = None
        chk(ctx, g.edge_index == {e: k for k, e in enumerate(edges)}, 'edge indices stay consecutive and do not change',
            got=sorted(g.edge_index.items()))
        for e in edges:
            for p in ('edge_type', 'length'):
                chk(ctx, same(g.ep(e, p), truth[e].get(p)), 'an edge property reads back for its edge only', edge=e, p=p,
                    got=g.ep(e, p), want=truth[e].get(p))
        for v in order:
            chk(ctx, same(g.vp(v, 'size'), vtruth[v].get('size')), 'a vertex property reads back for its vertex only', v=v,
                got=g.vp(v, 'size'), want=vtruth[v].get('size'))
        chk(ctx, g.edge_properties() == set(p for d in truth.values() for p in d), 'the edge properties are those set',
            got=sorted(g.edge_properties()))
        chk(ctx, g.vertex_properties() == set(p for d in vtruth.values() for p in d), 'the vertex properties are those set',
            got=sorted(g.vertex_properties()))
    for v in order:
        chk(ctx, sorted(g.out_neighbours(v)) == sorted(e[1] for e in edges if e[0] == v), 'the out-neighbours of a vertex', v=v,
            got=g.out_neighbours(v))
        for u in order:
            chk(ctx, bool(g.is_edge((v, u))) == ((v, u) in edges), 'what is an edge', e=(v, u))
    t = ctx.int('asked type', ge=0, le=4)
    got = g.get_edge_type(t)
    chk(ctx, len(set(got)) == len(got), 'no edge is listed twice', got=got)
    for e in edges:
        chk(ctx, (truth[e]['edge_type'] == t) if e in got else Not(truth[e]['edge_type'] == t),
            'exactly the edges of a type are listed', edge=e, got=got)
    if got:
        ctx.cover('edges of a type')
    pos = {v: [ctx.real('x'), ctx.real('y')] for v in order}
    g.set_pos(pos)
    for v in order:
        chk(ctx, And(same(list(g.pos[v]), pos[v]), same(list(g.vp(v, 'pos')), pos[v])), 'a vertex is where it was put', v=v)
    ctx.observe('index', sorted([e[0], e[1], k] for e, k in g.edge_index.items()))
    ctx.cover('graph')


CLASSES = ['NullQueue', 'QueueServer', 'LossQueue', 'LossQueue']


def prepared(ctx, n=3, source='digraph', adjust=True, kinds=(-1, 0, 1, 2, 3)):
    """A network over a graph: one queue per edge, of its type and arguments."""
    edges = some_edges(ctx, n)
    ctx.assume(len(edges) > 0)
    order = list(range(n))
    if ctx.choose(2, 'order'):
        order.reverse()
    types, wts = {}, {}
    for e in edges:
        ty = kinds[sum(e) % len(kinds) if sure(n, e) else ctx.concretize(ctx.int('type%d%d' % e, ge=0, le=len(kinds) - 1))]
        if ty >= 0:
            types[e] = ty
        wts[e] = ctx.real('w')
    pos = {v: [ctx.real('x', ge=0, le=1), ctx.real('y', ge=0, le=1)] for v in order} if ctx.choose(2, 'positions') else None

    def attrs(e):
        d = {'w': wts[e]}
        if e in types:
            d['edge_type'] = types[e]
        return d
    vs = set(order)
    if source in ('digraph', 'qdigraph'):
        g = nx.DiGraph()
        for v in order:
            g.add_node(v)
            if pos:
                g.nodes[v]['pos'] = pos[v]
        for v in order:
            for u in order:
                if (v, u) in edges:
                    g.add_edge(v, u, **attrs((v, u)))
        if source == 'qdigraph':
            g = qt.QueueNetworkDiGraph(g)
    elif source == 'undirected':
        g = nx.Graph()
        for v in order:
            g.add_node(v)
            if pos:
                g.nodes[v]['pos'] = pos[v]
        for v, u in edges:
            if (u, v) not in g.edges():
                g.add_edge(v, u, **attrs((v, u)))
        for v, u in list(edges):
            if (u, v) in edges and u != v:
                first = (v, u) if edges.index((v, u)) < edges.index((u, v)) else (u, v)
                other = first[::-1]
                wts[other] = wts[first]
                types.pop(other, None)
                if first in types:
                    types[other] = types[first]
            elif u != v:
                edges.append((u, v))
                wts[u, v] = wts[v, u]
                if (v, u) in types:
                    types[u, v] = types[v, u]
    else:
        pos = None
        g = {v: {u: attrs((v, u)) for u in order if (v, u) in edges} for v in order}
    ends = [v for v in order if not any(e[0] == v for e in edges)]
    want = {e: types.get(e, 1) for e in edges}
    if source == 'dict':     # dictionaries go through adjacency2graph first
        for v in ends:
            want[v, v] = 0
            edges.append((v, v))
        ends = []
    if adjust:
        for e in edges:
            if e[1] in ends:
                want[e] = 0
    elif source != 'dict':
        if len(types) < len(edges):
            return      # types have to be there when nothing is adjusted
    order_e = sorted(edges)
    ns = {t: ctx.int('servers of type %d' % t, ge=1, le=3) for t in (1, 2, 3)}
    bf = {t: ctx.int('buffer of type %d' % t, ge=0, le=3) for t in (2, 3)}
    cls = {k: getattr(qt, CLASSES[k]) for k in (1, 3)}
    args = {1: dict(num_servers=ns[1], colors={'edge_color': [0.5, 0.5, 0.5, 1.0]}), 2: dict(num_servers=ns[2], qbuffer=bf[2]),
            3: dict(num_servers=ns[3], qbuffer=bf[3], service_f=_ser)}
    colors = {'bgcolor': [0, 0, 0, 1]}
    asked = ((cls, args, colors), g if isinstance(g, dict) else nx.to_dict_of_dicts(g))
    before = (snap(asked[0]), snap(asked[1]))
    mx = ctx.int('max_agents', ge=1, le=2000)
    net = qt.QueueNetwork(g, q_classes=cls, q_args=args, colors=colors, max_agents=mx, adjust_graph=adjust)
    after = asked[0], (g if isinstance(g, dict) else nx.to_dict_of_dicts(g))
    if adjust or source != 'qdigraph':
        chk(ctx, same(snap(after[1]), before[1]), 'the graph given is not changed', before=before[1], after=after[1])
    chk(ctx, same(snap(after[0]), before[0]), 'the classes, arguments and colours given are not changed', before=before[0],
        after=after[0])
    chk(ctx, And(net.num_vertices == n, net.num_nodes == n, net.num_edges == len(order_e)), 'the network has the vertices and edges '
        'of the graph', got=(net.num_vertices, net.num_edges))
    chk(ctx, sorted(net.g.edges()) == order_e and sorted(net.g.nodes()) == sorted(vs), 'the network has the vertices and edges '
        'of the graph', got=sorted(net.g.edges()), want=order_e)
    if sorted(net.g.edges()) != order_e:
        return
    chk(ctx, net.g.edge_index == {e: k for k, e in enumerate(order_e)}, 'edges are numbered consecutively in sorted order',
        got=sorted(net.g.edge_index.items()))
    for k, e in enumerate(order_e):
        t = want[e]
        q = net.edge2queue[k]
        chk(ctx, net.g.ep(e, 'edge_type') == t, 'every edge of the network has its type', edge=e, got=net.g.ep(e, 'edge_type'), want=t)
        chk(ctx, tuple(q.edge) == (e[0], e[1], k, t), 'the queue of an edge knows its edge, index and type', got=q.edge,
            want=(e[0], e[1], k, t))
        chk(ctx, type(q) is getattr(qt, CLASSES[t]), 'the queue of an edge is of the class of its type', edge=e, got=type(q).__name__)
        if t and e in wts:
            chk(ctx, same(net.g.ep(e, 'w'), wts[e]), 'edges keep their other properties', edge=e)
        if t:
            chk(ctx, q.num_servers == ns[t], 'a queue has the arguments of its type', edge=e, got=q.num_servers)
        if t >= 2:
            chk(ctx, q.buffer == bf[t], 'a queue has the arguments of its type', edge=e, got=q.buffer)
        chk(ctx, (getattr(q, 'service_f', None) is _ser) == (t == 3), 'a queue has the arguments of its type', edge=e)
        if t == 1:
            chk(ctx, q.colors['edge_color'] == [0.5, 0.5, 0.5, 1.0], 'a queue has the colours of its type', edge=e)
        chk(ctx, net.num_agents[k] == 0, 'a new network is empty', k=k)
        if t == 0:
            ctx.cover('terminal')
    for v in range(n):
        chk(ctx, list(net.out_edges[v]) == [k for k, e in enumerate(order_e) if e[0] == v], 'the out-edges of a vertex, in order',
            v=v, got=net.out_edges[v])
        chk(ctx, sorted(net.in_edges[v]) == [k for k, e in enumerate(order_e) if e[1] == v], 'the in-edges of a vertex', v=v,
            got=net.in_edges[v])
    chk(ctx, And(net.max_agents == mx, net.num_events == 0, net.current_time == 0), 'a new network has nothing done')
    if pos:
        for v in order:
            chk(ctx, same(list(net.g.pos[v]), pos[v]), 'a vertex is where it was put', v=v, got=net.g.pos[v], want=pos[v])
    chk(ctx, net.colors['bgcolor'] == [0, 0, 0, 1] and net.colors['edge_active'] == qt.QueueNetwork.default_colors['edge_active'],
        'the network has the colours given and the defaults for the rest')
    ctx.observe('queues', [[type(q).__name__] + [int(x) for x in q.edge] for q in net.edge2queue])
    ctx.cover('network')


def _ser(t):
    return t + 1
