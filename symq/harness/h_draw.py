"""Drawing and animation (C26, C27), up to the boundary of matplotlib."""
import networkx
import engine
from engine import And, Or, Not, Implies, SymNum, PathBound

import numpy as _np
import mplshim
import queueing_tool as qt
import h_twin
from h_twin import Tape, nstate, same, differ, functions

INF = float('inf')

TOPO = {
    'tandem': ({0: [1], 1: [2], 2: [2]},
               {(0, 1): 'QueueServer', (1, 2): 'LossQueue', (2, 2): 'NullQueue'}, [0]),
    'mixed': ({2: [2, 0], 0: [1, 0], 1: [2, 0]},
              {(0, 0): 'LossQueue', (0, 1): 'QueueServer', (1, 0): 'QueueServer', (1, 2): 'LossQueue', (2, 0): 'QueueServer',
               (2, 2): 'NullQueue'}, [1]),
    'into': ({0: [2], 1: [2, 0], 2: [2], 3: [2]},
             {(0, 2): 'QueueServer', (1, 2): 'LossQueue', (1, 0): 'QueueServer', (3, 2): 'QueueServer', (2, 2): 'NullQueue'},
             [0, 1]),
    'rpair': ({0: [1, 0], 1: [0]}, {(0, 1): 'ResourceQueue', (0, 0): 'ResourceQueue', (1, 0): 'InfoQueue'}, [1]),
    'loop': ({0: [0, 1], 1: [0]}, {(0, 0): 'QueueServer', (0, 1): 'LossQueue', (1, 0): 'QueueServer'}, [0]),
    'exit': ({1: [0, 1], 0: [0]}, {(0, 0): 'NullQueue', (1, 0): 'LossQueue', (1, 1): 'QueueServer'}, [1, 2]),
}


def shade(i, j):
    """A colour that says which edge (or vertex) it belongs to."""
    return [0.25 + 0.0625 * i, 0.75 - 0.0625 * i, 0.125 * (1 + j % 7), 1.0 if j < 8 else 0.5]


def make(ctx, topo, servers=1, b=0, own=True, colors=None, blocking='BAS', sens=None, order=None):
    adj, kinds, act = TOPO[topo]
    edges = sorted(kinds)
    types = {v: {u: (0 if kinds[v, u] == 'NullQueue' else edges.index((v, u)) + 1) for u in us} for v, us in adj.items()}
    cls, args, mine = {0: qt.NullQueue}, {0: {}}, {}
    for k, e in enumerate(edges):
        c = {'edge_loop_color': shade(k, 1), 'edge_color': shade(k, 2), 'vertex_fill_color': shade(k, 3),
             'vertex_color': shade(k, 4), 'vertex_pen_color': shade(k, 5)}
        mine[k] = c
        if kinds[e] == 'NullQueue':
            if own:
                args[0]['colors'] = c
            continue
        af, sf = functions(k)
        cls[k + 1] = getattr(qt, kinds[e])
        args[k + 1] = dict(num_servers=servers, arrival_f=af, service_f=sf)
        if sens is not None:
            args[k + 1]['coloring_sensitivity'] = sens
        if own:
            args[k + 1]['colors'] = c
        if kinds[e] not in ('QueueServer', 'InfoQueue'):
            args[k + 1]['qbuffer'] = b
        if kinds[e] == 'InfoQueue':
            args[k + 1]['net_size'] = len(edges)
    g = qt.adjacency2graph({v: list(us) for v, us in adj.items()}, edge_type=types, adjust=1)
    g = qt.QueueNetworkDiGraph(g)
    g.set_pos(places(adj))
    kw = {} if colors is None else dict(colors=colors)
    net = qt.QueueNetwork(g, q_classes=cls, q_args=args, blocking=blocking, **kw)
    return net, edges, act


def places(adj):
    vs = set(adj) | set(u for us in adj.values() for u in us)
    return {v: _np.array([1.0 * v, 10.0 - v * v]) for v in vs}


def chk(ctx, c, label, *tags, **info):
    ctx.check_that(c, label, tags or ('C26',), **info)


def close(x, y):
    if isinstance(x, SymNum) or isinstance(y, SymNum):
        return x == y
    return abs(x - y) <= 1e-9


def alike(x, y):
    return And(*([len(x) == len(y)] + [close(a, b) for a, b in zip(x, y)]))


def valid(c):
    return And(*([len(c) == 4] + [And(x >= 0, x <= 1) for x in c]))


def edge_shade(q):
    """What the documentation of QueueServer says the colour of its edge is; None where it says nothing."""
    if isinstance(q, qt.NullQueue):
        return q.colors['edge_loop_color' if q.edge[0] == q.edge[1] else 'edge_color']
    if isinstance(q, qt.ResourceQueue):
        return None
    if q.edge[0] == q.edge[1]:
        return q.colors['edge_loop_color']
    div = q.coloring_sensitivity * q.num_servers + 1.
    n = q.num_system / div
    tmp = 1. - (engine.Ite(n < 1, n, 1) if isinstance(n, SymNum) else min(n, 1))
    return [i * tmp for i in q.colors['edge_color'][:3]] + [0.5]


def loop_shade(q):
    """The fill colour of a vertex with a loop."""
    div = q.coloring_sensitivity * q.num_servers + 1.
    n = q.num_system / div
    tmp = 1. - (engine.Ite(n < 1, n, 1) if isinstance(n, SymNum) else min(n, 1))
    return [i * tmp for i in q.colors['vertex_fill_color'][:3]] + [1.0]


def displayed(ctx, net, edges, ax):
    """Every colour that is displayed, against the queues."""
    lines, scatt = ax.lines, ax.scatt
    nV = net.num_vertices
    chk(ctx, lines is not None and scatt is not None, 'edges and vertices are drawn')
    chk(ctx, len(lines.colors) == len(edges), 'each edge has a colour')
    chk(ctx, len(scatt.face) == nV and len(scatt.edge) == nV, 'each vertex has colours')
    for k, e in enumerate(edges):
        q = net.edge2queue[k]
        want = edge_shade(q)
        chk(ctx, valid(lines.colors[k]), 'the colour of an edge is valid', edge=e, color=lines.colors[k])
        if want is not None:
            chk(ctx, alike(lines.colors[k], want), 'the colour of an edge is that of the queue on it', edge=e,
                got=lines.colors[k], want=want)
    for v in range(nV):
        chk(ctx, valid(scatt.face[v]), 'the fill colour of a vertex is valid', v=v, color=scatt.face[v])
        chk(ctx, valid(scatt.edge[v]), 'the border colour of a vertex is valid', v=v, color=scatt.edge[v])
        if (v, v) in edges:
            q = net.edge2queue[edges.index((v, v))]
            if not isinstance(q, (qt.NullQueue, qt.ResourceQueue)):
                chk(ctx, alike(scatt.face[v], loop_shade(q)), 'a vertex with a loop shows the queue on the loop', v=v,
                    got=scatt.face[v], want=loop_shade(q))
            if not isinstance(q, qt.ResourceQueue):
                chk(ctx, alike(scatt.edge[v], q.colors['vertex_color']), 'the border of a vertex with a loop is that of the loop',
                    v=v, got=scatt.edge[v])
        else:
            chk(ctx, alike(scatt.edge[v], net.colors['vertex_color']), 'the border of a vertex without a loop is the default',
                v=v, got=scatt.edge[v])


def geometry(ctx, net, edges, ax, pos):
    lines, scatt = ax.lines, ax.scatt
    C = 'C27'
    chk(ctx, len(lines.segments) == len(edges), 'each edge is drawn once', C, got=len(lines.segments))
    for k, (v, u) in enumerate(edges):
        if k < len(lines.segments):
            s = lines.segments[k]
            chk(ctx, And(alike(s[0], pos[v]), alike(s[1], pos[u])), 'each edge is drawn from its source to its target', C,
                edge=(v, u), got=s)
    chk(ctx, len(scatt.x) == net.num_vertices == len(scatt.y), 'each vertex is drawn once', C)
    for v in range(min(len(scatt.x), net.num_vertices)):
        chk(ctx, alike([scatt.x[v], scatt.y[v]], pos[v]), 'each vertex is drawn at its position', C, v=v,
            got=[scatt.x[v], scatt.y[v]])
    chk(ctx, len(lines.colors) == len(edges) and len(scatt.face) == net.num_vertices, 'colours belong to what is drawn', C)


def state(net):
    d = nstate(net)
    d.pop('colors'), d.pop('vertices'), d.pop('places')
    return d


def redraw(net):
    del mplshim.FIGURES[:]
    net.draw()
    return mplshim.FIGURES[-1].ax


def now(net):
    del mplshim.FIGURES[:]
    net.draw(update_colors=False)
    return mplshim.FIGURES[-1].ax


def ax_same(x, y):
    return And(*([alike(a, b) for a, b in zip(x.lines.colors, y.lines.colors)] +
                 [alike(a, b) for a, b in zip(x.scatt.face, y.scatt.face)] +
                 [alike(a, b) for a, b in zip(x.scatt.edge, y.scatt.edge)]))


def animation(ctx, topo='tandem', warm=1, n=4, arrivals=3, servers=1, bmax=1, blocking='BAS', timed=False, save=False):
    """animate() and simulate() on the same decisions; every frame against the state."""
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    first, second = Tape(ctx, arrivals), Tape(ctx, arrivals)
    second.vals = first.vals
    ctx.tape = lambda: h_twin.TAPE.draw()
    try:
        nets = []
        for t in (first, second):
            h_twin.TAPE = t
            net, edges, act = make(ctx, topo, servers, b, blocking=blocking)
            net.initialize(queues=act)
            for _ in range(warm):
                net.simulate(n=1)
            nets.append(net)
        a, c = nets
        length = ctx.real('length', ge=0) if timed else None
        t0 = c.current_time

        def frame(i, ax):
            if not (timed and c.current_time > t0 + length):
                h_twin.TAPE = second
                c.simulate(n=1)
                h_twin.TAPE = first
            x, y = state(a), state(c)
            chk(ctx, same(x, y), 'animating processes the same events as simulating', differ=[d for d in differ(x, y)][:3])
            if c.current_time != INF:
                displayed(ctx, a, edges, ax)
                mine = list(mplshim.FIGURES)
                full = redraw(c)
                mplshim.FIGURES[:] = mine
                chk(ctx, ax_same(ax, full), 'a frame of an animation shows what a drawing of the same state shows', frame=i,
                    frame_colors=[ax.lines.colors, ax.scatt.face, ax.scatt.edge],
                    drawing=[full.lines.colors, full.scatt.face, full.scatt.edge])
        mplshim.FRAMES[:] = [n, frame]
        h_twin.TAPE = first
        kw = {} if not timed else dict(t=length)
        if save:
            kw.update(filename='nowhere', frames=n)
        a.animate(**kw)
        ax = mplshim.FIGURES[-1].ax
        geometry(ctx, a, edges, ax, places(TOPO[topo][0]))
        ctx.cover('animated')
        ctx.observe('end', int(a.num_events))
    finally:
        ctx.tape = None
        mplshim.FRAMES[:] = [0, None]


def drawings(ctx, topo='mixed', n=3, arrivals=2, servers=1, bmax=0):
    """draw, show_type, show_active and reset_colors in some state, in some order."""
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    tape = Tape(ctx, arrivals)
    h_twin.TAPE = tape
    ctx.tape = lambda: h_twin.TAPE.draw()
    try:
        net, edges, act = make(ctx, topo, servers, b)
        pos = places(TOPO[topo][0])
        ax = now(net)
        geometry(ctx, net, edges, ax, pos)
        own(ctx, net, edges, ax)
        net.initialize(queues=act)
        for _ in range(n):
            net.simulate(n=1)
        before = state(net)
        used = dict(tape.pos)
        ax = redraw(net)
        displayed(ctx, net, edges, ax)
        geometry(ctx, net, edges, ax, pos)
        op = ctx.choose(4, 'show')
        del mplshim.FIGURES[:]
        V = list(range(net.num_vertices))
        if op == 0:
            net.reset_colors()
            own(ctx, net, edges, now(net))
            ctx.cover('reset')
        elif op == 3:
            new = {v: _np.array([2.0 - v, 3.0 * v]) for v in V}
            net.draw(pos=new)
            geometry(ctx, net, edges, mplshim.FIGURES[-1].ax, new)
        else:
            if op == 1:
                ts = sorted(set(q.edge[3] for q in net.edge2queue))
                ty = ts[ctx.choose(len(ts), 'type')]
                net.show_type(ty)
                marked = [q.edge[3] == ty for q in net.edge2queue]
                C, dark = net.colors, 'vertex_highlight'
                bright = [(v, v) in edges and marked[edges.index((v, v))] for v in V]
            else:
                net.show_active()
                marked = [bool(q.active) for q in net.edge2queue]
                C, dark = net.colors, 'vertex_active'
                bright = [any(marked[k] for k, e in enumerate(edges) if e[1] == v) for v in V]
            sh = mplshim.FIGURES[-1].ax
            geometry(ctx, net, edges, sh, pos)
            for k, e in enumerate(edges):
                chk(ctx, alike(sh.lines.colors[k], C['edge_active' if marked[k] else 'edge_inactive']),
                    'show_type and show_active mark the edges meant', op=op, edge=e, got=sh.lines.colors[k])
            for v in V:
                chk(ctx, alike(sh.scatt.face[v], C[dark if bright[v] else 'vertex_inactive']),
                    'show_type and show_active mark the vertices meant', op=op, v=v, got=sh.scatt.face[v])
            back = now(net)
            displayed(ctx, net, edges, back)
            chk(ctx, ax_same(back, ax), 'the colours are back afterwards', op=op, got=[back.lines.colors, back.scatt.face, back.scatt.edge],
                want=[ax.lines.colors, ax.scatt.face, ax.scatt.edge])
            ctx.cover('shown')
        after = state(net)
        chk(ctx, same(after, before), 'drawing changes nothing', differ=[d for d in differ(after, before)][:3])
        chk(ctx, tape.pos == used, 'drawing makes no random decision')
        ctx.cover('drawn')
    finally:
        ctx.tape = None


def own(ctx, net, edges, ax):
    """Default colours."""
    for k, e in enumerate(edges):
        c = net.edge2queue[k].colors['edge_loop_color' if e[0] == e[1] else 'edge_color']
        chk(ctx, alike(ax.lines.colors[k], c), 'the default colour of an edge is that of its queue', edge=e,
            got=ax.lines.colors[k], want=c)
    for v in range(net.num_vertices):
        chk(ctx, valid(ax.scatt.face[v]), 'the fill colour of a vertex is valid', v=v)
        if (v, v) not in edges:
            fill, border = net.colors['vertex_fill_color'], net.colors['vertex_color']
        else:
            q = net.edge2queue[edges.index((v, v))]
            if isinstance(q, qt.ResourceQueue):
                continue
            fill, border = q.colors['vertex_fill_color'], q.colors['vertex_color']
        chk(ctx, alike(ax.scatt.face[v][:3], fill[:3]), 'the default colour of a vertex', v=v, got=ax.scatt.face[v], want=fill)
        chk(ctx, alike(ax.scatt.edge[v], border), 'the default border of a vertex', v=v, got=ax.scatt.edge[v], want=border)


def loads(ctx, topo='into', servers=1, sens=2, colored=False):
    """Any number of agents in the queues; more agents never make anything lighter."""
    base = [ctx.real('base', ge=0, le=1) for _ in range(3)] + [1.0] if colored else None
    net, edges, act = make(ctx, topo, servers=servers, own=True, sens=sens,
                           colors=dict(vertex_fill_color=base) if colored else None)
    few, many = {}, {}
    for k, e in enumerate(edges):
        q = net.edge2queue[k]
        if isinstance(q, qt.NullQueue):
            continue
        few[k] = ctx.int('few', ge=0, le=40)
        many[k] = few[k] + ctx.int('more', ge=0, le=40)
    axs = []
    for load in (few, many):
        for k in load:
            net.edge2queue[k].num_system = load[k]
        ax = redraw(net)
        displayed(ctx, net, edges, ax)
        axs.append(ax)
    x, y = axs
    for k in few:
        chk(ctx, And(*[p >= q for p, q in zip(x.lines.colors[k], y.lines.colors[k])]), 'more agents make an edge darker',
            edge=edges[k], few=x.lines.colors[k], many=y.lines.colors[k])
    for v in range(net.num_vertices):
        chk(ctx, And(*[p >= q for p, q in zip(x.scatt.face[v], y.scatt.face[v])]), 'more agents make a vertex darker', v=v,
            few=x.scatt.face[v], many=y.scatt.face[v])
        into = [k for k, e in enumerate(edges) if e[1] == v and k in few]
        loop = (v, v) in edges and edges.index((v, v)) in few
        if not loop and into:
            a, b = sum(few[k] for k in into), sum(many[k] for k in into)
            chk(ctx, Or(a != b, alike(x.scatt.face[v], y.scatt.face[v])), 'the shade of a vertex depends on the agents bound for it',
                v=v, few=x.scatt.face[v], many=y.scatt.face[v])
            chk(ctx, Or(a == b, Not(alike(x.scatt.face[v], y.scatt.face[v])), *[alike(x.scatt.face[v], [0, 0, 0, 1.0])] ),
                'the shade of a vertex shows the agents bound for it', v=v) if not colored else None
    ctx.cover('loads')


def color_of(ctx, kind='QueueServer', servers=1, sens=2, loop=False):
    """The colours of one queue with any base colour and load."""
    cs = {n: [ctx.real(n, ge=0, le=1) for _ in range(4)] for n in
          ('edge_color', 'edge_loop_color', 'vertex_fill_color', 'vertex_color', 'vertex_pen_color')}
    given = ctx.choose(3, 'colours given')           # all, one, none
    if given:
        cs = {'edge_color': cs['edge_color']} if given == 1 else None
        ctx.cover('default colours')
    kw = {} if cs is None else dict(colors=dict(cs))
    q = getattr(qt, kind)(num_servers=servers, edge=(1, 1 if loop else 2, 4, 1), coloring_sensitivity=sens, **kw)
    for k, c in sorted(q.colors.items()):
        chk(ctx, valid(c), 'the colours of a queue are valid', color=c, name=k)
    chk(ctx, And(*[alike(q.colors[k], c) for k, c in (cs or {}).items()]), 'colours are as given')
    cs = q.colors
    few = ctx.int('few', ge=0)
    many = few + ctx.int('more', ge=0)
    out = []
    for n in (few, many):
        if kind == 'ResourceQueue':
            q.num_servers = n
        else:
            q.num_system = n
        cols = [q._current_color(w) for w in (0, 1, 2)]
        for c in cols:
            chk(ctx, valid(c), 'the colours of a queue are valid', color=c, n=n)
        out.append(cols)
    if kind != 'ResourceQueue':
        chk(ctx, And(*[p >= r for p, r in zip(out[0][0], out[1][0])]), 'more agents make a darker colour', few=out[0][0],
            many=out[1][0])
        chk(ctx, And(alike(out[0][1], cs['edge_loop_color']), alike(out[0][2], cs['vertex_color'])), 'fixed colours are as given')
        ctx.observe('c', out[0][0])
    ctx.cover('colours of a queue')


def tint(ctx, name):
    return [ctx.real(name + c, ge=0, le=1) for c in 'rgb'] + [1.0]


def any_graph(ctx, n=3, how='set'):
    """Any graph with any positions and colours, drawn in one of the documented ways."""
    import h_graph
    edges = h_graph.some_edges(ctx, n)
    adj, vs = h_graph.adjacency(ctx, n, edges, 'lists', {})
    if vs != set(range(n)):
        ctx.assume(False)
    g = qt.QueueNetworkDiGraph({v: list(us) for v, us in adj.items()}) if edges or adj else None
    edges = sorted(g.edges())
    pos = {v: _np.array([ctx.real('x%d' % v), ctx.real('y%d' % v)], dtype=object if ctx.symbolic else float)
           for v in reversed(range(n))}
    ecol = {e: tint(ctx, 'e%d%d' % e) for e in edges}
    fill, pen = {v: tint(ctx, 'f%d' % v) for v in range(n)}, {v: tint(ctx, 'p%d' % v) for v in range(n)}
    g.new_edge_property('edge_color')
    if ctx.symbolic:
        g.edge_color = g.edge_color.astype(object)
    g.new_vertex_property('vertex_color')
    g.new_vertex_property('vertex_fill_color')
    order = list(reversed(edges)) if ctx.choose(2, 'order') else list(edges)
    for e in order:
        g.set_ep(e, 'edge_color', ecol[e])
    for v in range(n):
        g.set_vp(v, 'vertex_color', pen[v])
        g.set_vp(v, 'vertex_fill_color', fill[v])
    kw = {}
    if how == 'set':
        g.set_pos(pos)
    elif how == 'pos':
        kw['pos'] = pos
    other = tint(ctx, 'other')
    op = ctx.choose(4, 'way')
    bg = [1, 1, 1, 1]
    if op == 1:
        kw.update(line_kwargs={'linewidths': 4, 'nonsense': 1}, scatter_kwargs={'s': 7, 'marker': 'x'})
    if op == 2:
        bg = other
        kw.update(fname='file.png', dpi=3, facecolor='w', bgcolor=bg, scatter_kwargs={'c': [other] * n})
    if op == 3:
        kw.update(line_kwargs={'colors': [other] * len(edges)})
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    del mplshim.FIGURES[:]
    mplshim.SHOWN[:] = [0]
    g.draw_graph(**kw)
    C = 'C27'
    chk(ctx, len(mplshim.FIGURES) == 1, 'one figure is drawn', C)
    f = mplshim.FIGURES[-1]
    ax = f.ax
    if how == 'none':                 # wherever the library puts the vertices
        pos = {v: list(g.pos[v]) for v in range(n)}
        chk(ctx, And(*[len(p) == 2 and all(x == x and abs(x) < 1e6 for x in p) for p in pos.values()]),
            'a graph without positions is given some', C, pos=pos)
        ctx.cover('no positions given')
    if how != 'pos':
        for v in range(n):
            p = g.vp(v, 'pos')
            chk(ctx, p is not None and len(p) == 2 and alike(list(p), list(pos[v])), 'drawing leaves the vertices where they are', C, v=v, got=p)
    geom(ctx, edges, n, ax, pos)
    for k, e in enumerate(edges):
        want = other if op == 3 else ecol[e]
        chk(ctx, alike(ax.lines.colors[k], want), 'each edge is drawn in its colour', C, edge=e, got=ax.lines.colors[k], want=want)
    for v in range(n):
        want = other if op == 2 else fill[v]
        chk(ctx, And(alike(ax.scatt.face[v], want), alike(ax.scatt.edge[v], pen[v])), 'each vertex is drawn in its colours', C,
            v=v, got=[ax.scatt.face[v], ax.scatt.edge[v]], want=[want, pen[v]])
    chk(ctx, alike(ax.background, bg), 'the background is the one asked for', C, got=ax.background)
    if op == 2:
        chk(ctx, len(f.saved) == 1 and mplshim.SHOWN == [0], 'a figure with a file name is saved, not shown', C)
        a, k = f.saved[0]
        k = dict(k)
        if a:
            k['fname'] = a[0]
        chk(ctx, k == {'fname': 'file.png', 'dpi': 3, 'facecolor': 'w'}, 'what concerns the file is passed on', C, got=k)
        ctx.cover('saved')
    else:
        chk(ctx, not f.saved and mplshim.SHOWN == [1], 'a figure without a file name is shown', C)
    if op == 1:
        chk(ctx, ax.lines.kw.get('linewidths') == 4 and ax.scatt.s == 7 and ax.scatt.kw.get('marker') == 'x',
            'drawing options are passed on', C)
        chk(ctx, 'nonsense' not in ax.lines.kw, 'unknown options are not passed on', C)
    chk(ctx, And(*[keep[k] is kw[k] or _eq(keep[k], kw[k]) for k in keep]), 'the options given are not changed', C)
    ctx.cover('graph drawn')


def _eq(x, y):
    if not isinstance(x, dict):
        return True
    return list(x) == list(y) and all(x[k] is y[k] for k in x)


def geom(ctx, edges, n, ax, pos):
    lines, scatt = ax.lines, ax.scatt
    C = 'C27'
    chk(ctx, len(lines.segments) == len(edges) == len(lines.colors), 'each edge is drawn once', C, got=len(lines.segments))
    for k, (v, u) in enumerate(edges):
        s = lines.segments[k]
        chk(ctx, And(alike(s[0], pos[v]), alike(s[1], pos[u])), 'each edge is drawn from its source to its target', C,
            edge=(v, u), got=s)
    chk(ctx, len(scatt.x) == n == len(scatt.y) == len(scatt.face) == len(scatt.edge), 'each vertex is drawn once', C)
    for v in range(n):
        chk(ctx, alike([scatt.x[v], scatt.y[v]], pos[v]), 'each vertex is drawn at its position', C, v=v,
            got=[scatt.x[v], scatt.y[v]])


def any_network(ctx, n=2, kinds=(0, 1, 2), most=6, op=None, lone=False):
    """Any small network with any numbers of agents and active queues, drawn and shown."""
    import h_graph
    edges = h_graph.some_edges(ctx, n)
    if not edges:
        ctx.assume(False)
    types, cls, args = {}, {}, {}
    for k, e in enumerate(edges):
        t = kinds[k % len(kinds) if h_graph.sure(n, e) else ctx.choose(len(kinds), 'kind')]
        types[e] = t
    vs = set(v for e in edges for v in e)
    if vs != set(range(n)):
        ctx.assume(False)
    adj = {}
    for v, u in edges:
        adj.setdefault(v, []).append(u)
    af, sf = functions(0)
    for t in kinds:
        cls[t] = (qt.NullQueue, qt.QueueServer, qt.LossQueue)[t]
        args[t] = dict(num_servers=t, arrival_f=af, service_f=sf, colors={
            'edge_loop_color': shade(t, 1), 'edge_color': shade(t, 2), 'vertex_fill_color': shade(t, 3),
            'vertex_color': shade(t, 4)}) if t else {}
    g = qt.QueueNetworkDiGraph(qt.adjacency2graph(adj, edge_type={v: {u: types[v, u] for u in us} for v, us in adj.items()}, adjust=1))
    if lone:                          # a vertex without any edge
        g = networkx.DiGraph(g)
        g.add_node(n)
        g = qt.QueueNetworkDiGraph(g)
        n += 1
    pos = places({v: [] for v in range(n)})
    g.set_pos(pos)
    colors = {c: shade(6, i) for i, c in enumerate(['vertex_fill_color', 'vertex_color', 'vertex_inactive', 'vertex_active',
                                                    'edge_active', 'edge_inactive', 'vertex_highlight'])}
    net = qt.QueueNetwork(g, q_classes=cls, q_args=args, colors=colors)
    for c in colors:
        chk(ctx, alike(net.colors[c], shade(6, list(colors).index(c))), 'the network has the colors it was given', color=c,
            got=net.colors[c])
    edges = sorted(net.g.edges())
    for k, e in enumerate(edges):
        q = net.edge2queue[k]
        if isinstance(q, qt.NullQueue):
            continue
        q.num_system = (k * 5 % 7) if h_graph.sure(n, e) else ctx.int('load', ge=0, le=most)
    ax = redraw(net)
    displayed(ctx, net, edges, ax)
    geom(ctx, edges, net.num_vertices, ax, pos)
    V = list(range(net.num_vertices))
    for v in V:
        loop = (v, v) in edges and edges.index((v, v))
        if loop is not False and not isinstance(net.edge2queue[loop], qt.NullQueue):
            continue
        into = [net.edge2queue[k] for k, e in enumerate(edges) if e[1] == v]
        a = sum([q.num_system for q in into])
        div = 2. * sum([q.num_servers for q in into]) + 2.
        tmp = 1. - (engine.Ite(a / div < 1, a / div, 1) if isinstance(a, SymNum) else min(a / div, 1))
        chk(ctx, alike(ax.scatt.face[v], [c * tmp for c in net.colors['vertex_fill_color'][:3]] + [1.0]),
            'a vertex without a loop shows the agents in the queues that lead to it', v=v, got=ax.scatt.face[v])
    op = ctx.choose(2, 'show') if op is None else op
    C = net.colors
    del mplshim.FIGURES[:]
    if op == 0:
        ty = (0, 1, 2, 5)[ctx.choose(4, 'type')]
        net.show_type(ty)
        marked = [q.edge[3] == ty for q in net.edge2queue]
        bright = [(v, v) in edges and marked[edges.index((v, v))] for v in V]
        col = C['vertex_highlight']
    else:
        marked = []
        for q in net.edge2queue:
            on = not isinstance(q, qt.NullQueue) and bool(
                q.edge[2] % 2 if h_graph.sure(n, q.edge[:2]) else ctx.choose(2, 'active'))
            if on:
                h_twin.TAPE = Tape(ctx, 1)
                q.set_active()
            marked.append(on)
        net.show_active()
        bright = [any(marked[k] for k, e in enumerate(edges) if e[1] == v) for v in V]
        col = C['vertex_active']
    sh = mplshim.FIGURES[-1].ax
    geom(ctx, edges, net.num_vertices, sh, pos)
    for k, e in enumerate(edges):
        chk(ctx, alike(sh.lines.colors[k], C['edge_active' if marked[k] else 'edge_inactive']),
            'show_type and show_active mark the edges meant', op=op, edge=e, got=sh.lines.colors[k])
    for v in V:
        chk(ctx, alike(sh.scatt.face[v], col if bright[v] else C['vertex_inactive']),
            'show_type and show_active mark the vertices meant', op=op, v=v, got=sh.scatt.face[v])
    back = now(net)
    chk(ctx, ax_same(back, ax), 'the colours are back afterwards', op=op, got=[back.lines.colors, back.scatt.face, back.scatt.edge],
        want=[ax.lines.colors, ax.scatt.face, ax.scatt.edge])
    net.reset_colors()
    own(ctx, net, edges, now(net))
    ctx.cover('network drawn')
