"""Bounded histories of small networks, driven through the public API.

Like h_queue: a mirror of the whole network is kept from what the library tells
its documented hooks (arrival and service functions, agent factory,
queue_action, add_loss, desired_destination), and every network event is
checked for legality against it."""
import engine
import mplshim
from engine import And, Or, Not, Implies, Iff, Min, Sum, SymBool, SymNum, PathBound

import queueing_tool as qt
import numpy as _np
from h_queue import INF, ident, sym_servers


class Net(object):
    """adj: {v: [u, ...]}; kinds: {(v, u): 'QueueServer' | 'LossQueue' | 'NullQueue'}.
    Every edge gets an edge type of its own, hence functions of its own."""

    def __init__(self, ctx, adj, kinds, servers=1, buffer=0, max_agents=None, blocking='BAS', arrivals=2,
                 agent='Agent', collect=False, probs=None, svc_gt=None, gap_gt=None, qextra=None, route=None,
                 agent_types=None):
        self.ctx = ctx
        self.log = []
        m = self
        self.arrivals_left = {}
        base = getattr(qt, agent)
        self.route = route

        class NAgent(base):
            __hash__ = object.__hash__

            def __init__(self, agent_id=(0, 0), *a, **k):
                super(NAgent, self).__init__(agent_id, *a, **k)
                self.lost = 0

            def queue_action(self, queue, *args, **kwargs):
                m.log.append(('act', args[0] if args else None, self, queue.edge[2], queue))
                super(NAgent, self).queue_action(queue, *args, **kwargs)

            def add_loss(self, *args, **kwargs):
                m.log.append(('loss', self))
                super(NAgent, self).add_loss(*args, **kwargs)

            def desired_destination(self, network, edge):
                if m.route is not None:
                    r = m.route(m, self, network, edge)
                else:
                    r = super(NAgent, self).desired_destination(network, edge)
                m.log.append(('dest', self, edge, r))
                return r

            def __repr__(self):
                return 'A%s' % (self.agent_id,)
        self.Agent = NAgent
        edges = sorted((v, u) for v in adj for u in adj[v])
        types, n = {}, 1
        self.kind = {}
        cls, args = {}, {}
        self.fns = {}
        for k, e in enumerate(edges):
            kd = kinds[e]
            ty = 0 if kd == 'NullQueue' else n
            n += ty != 0
            types.setdefault(e[0], {})[e[1]] = ty
            self.kind[k] = kd
            if ty:
                cls[ty] = getattr(qt, kd)
                a = dict(num_servers=servers[k] if isinstance(servers, dict) else servers,
                         arrival_f=self.arr(k), service_f=self.ser(k), AgentFactory=self.fac(k),
                         collect_data=collect)
                if kd != 'QueueServer':
                    a['qbuffer'] = buffer[k] if isinstance(buffer, dict) else buffer
                a.update((qextra or {}).get(k, {}))
                args[ty] = a
            self.arrivals_left[k] = arrivals[k] if isinstance(arrivals, dict) else arrivals
        cls[0] = qt.NullQueue
        args[0] = {'collect_data': collect}
        self.servers = {k: (args[types[e[0]][e[1]]]['num_servers'] if self.kind[k] != 'NullQueue' else 0)
                        for k, e in enumerate(edges)}
        self.buffer = {k: (args[types[e[0]][e[1]]].get('qbuffer', 0) if self.kind[k] != 'NullQueue' else 0)
                       for k, e in enumerate(edges)}
        self.svc_gt, self.gap_gt = svc_gt, gap_gt
        g = qt.adjacency2graph({v: list(us) for v, us in adj.items()}, edge_type=types, adjust=1)
        kw = {}
        if max_agents is not None:
            kw['max_agents'] = max_agents
        self.net = qt.QueueNetwork(g, q_classes=cls, q_args=args, blocking=blocking, **kw)
        self.blocking = blocking
        self.max_agents = INF if max_agents is None else max_agents
        self.edges = edges
        self.nE = len(edges)
        assert self.net.num_edges == self.nE
        self.out = {k: [i for i, e in enumerate(edges) if e[0] == edges[k][1]] for k in range(self.nE)}
        self.pending = {k: [] for k in range(self.nE)}
        self.waiting = {k: [] for k in range(self.nE)}
        self.serving = {k: [] for k in range(self.nE)}
        self.blocked = {k: 0 for k in range(self.nE)}
        self.ablocked = {}
        self.routed = set()
        self.gone = []
        self.ids = set()
        self.clock = 0
        self.last_total = 0
        self.nev = 0
        self.visits = []         # [agent_id, edge, arrival, service, departure, waiting, present] (C17)
        self.open = {}
        self.collect = {k: collect for k in range(self.nE)}
        self.active = {k: False for k in range(self.nE)}
        self.created = {k: 0 for k in range(self.nE)}

    # ---- functions handed to the library
    def arr(self, k):
        def arrival_f(t):
            self.arrivals_left[k] -= 1
            if self.arrivals_left[k] < 0:
                r = INF
            else:
                r = t + (self.ctx.real('gap%d' % k, ge=0) if self.gap_gt is None
                         else self.ctx.real('gap%d' % k, gt=self.gap_gt))
            self.log.append(('arr_f', k, t, r))
            return r
        return arrival_f

    def ser(self, k):
        def service_f(t):
            r = t + (self.ctx.real('svc%d' % k, ge=0) if self.svc_gt is None
                     else self.ctx.real('svc%d' % k, gt=self.svc_gt))
            self.log.append(('ser_f', k, t, r))
            return r
        return service_f

    def fac(self, k):
        def factory(agent_id, *a):
            x = self.Agent(agent_id, *a)
            self.log.append(('new', k, x))
            return x
        return factory

    # ---- helpers
    def chk(self, c, label, *tags, **info):
        self.ctx.check_that(c, label, tags, **info)

    def take(self):
        ev = list(self.log)
        del self.log[:]
        return ev

    def q(self, k):
        return self.net.edge2queue[k]

    def present(self, k):
        return len(self.waiting[k]) + len(self.serving[k])

    def held(self, k):
        return self.present(k) + len(self.pending[k])

    def total(self):
        return sum(self.held(k) for k in range(self.nE))

    def finite(self, k):
        return self.kind[k] in ('LossQueue', 'InfoQueue', 'ResourceQueue')

    def full(self, k):
        if not self.finite(k):
            return False
        return self.present(k) >= self.servers[k] + self.buffer[k]

    def qmin(self, k):
        return Min([t for _, t in self.pending[k]] + [t for _, t in self.serving[k]])

    def depmin(self, k):
        return Min([t for _, t in self.serving[k]])

    def nxt(self):
        return Min([self.qmin(k) for k in range(self.nE)])

    # ---- digesting
    def digest(self, ev):
        """Applies a log to the mirror; returns what moved."""
        out = {'arrive': [], 'start': [], 'depart': [], 'loss': [], 'dest': [], 'new': [], 'ser': []}
        last = {}
        for e in ev:
            if e[0] == 'arr_f':
                self.chk(e[2] == self.clock, 'arrival_f receives the current time', 'C11', got=e[2], now=self.clock)
                last[e[1]] = e[3]
            elif e[0] == 'new':
                k, a = e[1], e[2]
                self.chk(k in last, 'an agent is created with an arrival time', 'C10')
                self.chk(a.agent_id not in self.ids, 'agent ids are unique in the network', 'C10')
                self.ids.add(a.agent_id)
                self.pending[k].append([a, last.pop(k, INF)])
                self.created[k] += 1
                self.ablocked[id(a)] = 0
                out['new'].append((k, a))
            elif e[0] == 'ser_f':
                out['ser'].append(e[1:])
            elif e[0] == 'act':
                what, a, k, queue = e[1:]
                self.chk(queue is self.q(k), 'agents act on the queue they are at', 'C10')
                out[{0: 'arrive', 1: 'start', 2: 'depart'}[what]].append((k, a))
            elif e[0] == 'loss':
                out['loss'].append(e[1])
            elif e[0] == 'dest':
                out['dest'].append(e[1:])
        return out

    def initialize(self, **kw):
        self.net.initialize(**kw)
        o = self.digest(self.take())
        self.chk(not (o['arrive'] or o['start'] or o['depart'] or o['loss'] or o['dest']),
                 'initialize moves no agent', 'C10')
        for k in range(self.nE):
            self.active[k] = bool(self.q(k).active)
        self.steady()

    stale = False

    def finish_visit(self, a, k, now):
        v = self.open.pop(id(a), None)
        if v is not None and self.collect[k]:
            v[4] = now
        if v is None:
            self.unrecorded(a, k)

    def start_visit(self, a, k, now):
        v = self.open.get(id(a))
        if v is not None and self.collect[k]:
            v[3] = now
        if v is None:
            self.unrecorded(a, k)

    def unrecorded(self, a, k):
        """A visit that began while data was not collected goes on while it is."""
        if self.collect[k] and any(r[0] == a.agent_id and r[1] == k for r in self.visits):
            self.stale = True

    def open_visit(self, a, k):
        """a has just been appended to the agents at k"""
        if self.collect[k]:
            free = len(self.serving[k]) < self.servers[k]
            wl = engine.Ite(free, len(self.waiting[k]) - 1, len(self.waiting[k])) if isinstance(free, SymBool) \
                else len(self.waiting[k]) - (1 if free else 0)
            v = [a.agent_id, k, self.clock, 0, 0, wl, self.present(k)]
            self.visits.append(v)
            self.open[id(a)] = v
        else:
            self.open.pop(id(a), None)

    animated = False

    def step(self):
        if not self.animated:
            self.net.simulate(n=1)
            return
        mplshim.FRAMES[:] = [1, None]
        try:
            self.net.animate()
        finally:
            mplshim.FRAMES[:] = [0, None]
            del mplshim.FIGURES[:]

    def event(self):
        """One event of the network; returns a short description of it."""
        ctx, net = self.ctx, self.net
        nxt = self.nxt()
        self.chk(net.time == nxt, 'time is the time of the next event', 'C11', time=net.time, want=nxt)
        desc = net.next_event_description()
        before = {k: self.present(k) for k in range(self.nE)}
        ntot = self.total()
        isfull = {}
        self.step()
        ev = self.take()
        if nxt is INF or (not isinstance(nxt, SymNum) and nxt == INF):
            self.chk(not ev, 'nothing happens when nothing is scheduled', 'C11')
            self.chk(desc == ('Nothing', None), 'Nothing is announced when nothing is scheduled', 'C11', desc=desc)
            self.chk(net.num_events == self.nev, 'only events that happen are counted', 'C11')
            ctx.cover('nothing scheduled')
            return None
        old, self.clock = self.clock, nxt
        self.nev += 1
        self.chk(net.current_time == nxt, 'the clock is the time of the event', 'C11', now=net.current_time, want=nxt)
        self.chk(nxt >= old, 'the clock never runs backwards', 'C11')
        self.chk(net.num_events == self.nev, 'each event is counted once', 'C11', got=net.num_events, want=self.nev)
        o = self.digest(ev)
        kind = None
        if o['dest'] or o['depart']:
            kind, k = self.departure(o, nxt)
        else:
            kind, k = self.arrival(o, nxt)
        # announced: any of the queues whose next event was at this instant
        self.chk(desc[0] in ('Arrival', 'Departure') and desc[1] is not None and 0 <= desc[1] < self.nE,
                 'an event is announced', 'C11', desc=desc)
        if desc[1] is not None and desc[1] == k:
            self.chk(desc[0] == ('Arrival' if kind == 'arrival' else 'Departure'),
                     'the announced kind of event is the one that happens', 'C11', desc=desc, kind=kind)
        elif desc[1] is not None:
            self.chk(self.tied.get(desc[1], False), 'the announced queue is the one the event happens at',
                     'C11', desc=desc, k=k)
        self.steady()
        return kind

    def remember_ties(self, now):
        self.tied = {k: self.qmin(k) == now for k in range(self.nE)}

    def arrival(self, o, now):
        self.remember_ties(now)
        one = o['arrive'] + [(None, a) for a in o['loss']]
        self.chk(len(one) == 1 and not o['depart'], 'one event moves one agent', 'C10', 'C11', moved=one)
        if len(one) != 1:
            raise PathBound()
        k, a = one[0]
        if k is None:
            k = self.where_pending(a)
        self.enter(k, a, o, now)
        self.starts(o, now)
        self.chk(self.tied.get(k, False), 'the earliest event happens first', 'C11')
        return 'arrival', k

    def where_pending(self, a):
        for k in range(self.nE):
            if ident(a, [x for x, _ in self.pending[k]]) >= 0:
                return k
        self.chk(False, 'only an agent on its way can arrive', 'C10')
        return 0

    def enter(self, k, a, o, now):
        """a, pending at k, arrives there now (or is turned away)."""
        i = ident(a, [x for x, _ in self.pending[k]])
        self.chk(i >= 0, 'an agent arrives where it is on its way to, once', 'C10', agent=a, k=k)
        if i < 0:
            raise PathBound()
        self.chk(self.pending[k][i][1] == now, 'an agent arrives at its arrival time', 'C10', 'C11',
                 due=self.pending[k][i][1], now=now)
        self.pending[k].pop(i)
        full = self.full(k)
        if o['loss']:
            self.chk(o['loss'] == [a], 'one agent is turned away', 'C12')
            self.chk(full, 'only a full queue turns an agent away', 'C12')
            if id(a) in self.routed:
                self.chk(False, 'an agent routed by the network is never turned away on entry', 'C12', 'C10')
            self.blocked[k] += 1
            self.ablocked[id(a)] += 1
            self.gone.append(a)
            self.ctx.cover('turned away from outside')
            if self.collect[k]:
                self.visits.append([a.agent_id, k, now, 0, 0, len(self.waiting[k]), self.present(k)])
        else:
            self.chk(Not(full) if isinstance(full, SymBool) else not full, 'a full queue admits nobody', 'C12', k=k)
            self.waiting[k].append(a)
            self.open_visit(a, k)

    def starts(self, o, now, delayed=None):
        """Pair service starts with the service times drawn."""
        for k in range(self.nE):
            st = [a for kk, a in o['start'] if kk == k]
            en = [(t, r) for kk, t, r in o['ser'] if kk == k]
            self.chk(len(st) == len(en) or delayed == k, 'one service time per start of service', 'C10', k=k)
            if len(st) != len(en):
                continue
            for a, (t, r) in zip(st, en):
                self.chk(t == now, 'service starts now', 'C11')
                i = ident(a, self.waiting[k])
                self.chk(i == 0, 'service starts in order of arrival', 'C10', pos=i)
                if i < 0:
                    raise PathBound()
                self.waiting[k].pop(i)
                self.serving[k].append([a, r])
                self.start_visit(a, k, now)

    def departure(self, o, now):
        """An agent finished service and tries to move on."""
        self.remember_ties(now)
        self.chk(len(o['dest']) == 1, 'one event moves one agent', 'C10', 'C11', dest=o['dest'])
        if len(o['dest']) != 1:
            raise PathBound()
        a, edge, e2 = o['dest'][0]
        e1 = edge[2]
        self.chk(tuple(edge[:2]) == self.edges[e1], 'an agent is told the edge it is on', 'C14')
        self.chk(e2 in self.out[e1], 'an agent goes to an out-edge of the vertex it reaches', 'C14', e1=e1, e2=e2)
        i = ident(a, [x for x, _ in self.serving[e1]])
        self.chk(i >= 0, 'only an agent in service leaves', 'C10')
        if i < 0:
            raise PathBound()
        self.chk(self.serving[e1][i][1] == now, 'an agent leaves exactly when its service ends', 'C10', 'C11',
                 end=self.serving[e1][i][1], now=now)
        self.chk(self.tied.get(e1, False), 'the earliest event happens first', 'C11')
        full = self.full(e2) if e2 != e1 else False
        if isinstance(full, SymBool):
            full = bool(full)
        self.e1, self.e2 = e1, e2
        if full:
            self.chk(not (o['arrive'] or o['depart'] or o['start'] or o['loss'] or o['new']),
                     'an agent whose target is full stays where it is', 'C12', 'C10', log=str(o))
            self.blocked[e2] += 1
            self.ablocked[id(a)] += 1
            if self.blocking == 'RS':
                en = [(t, r) for kk, t, r in o['ser'] if kk == e1]
                self.chk(len(en) == 1 and len(o['ser']) == 1, 'the agent is served again', 'C12')
                if len(en) != 1:
                    raise PathBound()
                self.chk(en[0][0] == now, 'the repeated service starts now', 'C12')
                self.serving[e1][i][1] = en[0][1]
                self.ctx.cover('blocked RS')
            else:
                self.chk(not o['ser'], 'blocking after service draws no service time', 'C12')
                d = self.depmin(e2)
                new = getattr(a, '_time', None)
                if new is None:
                    raise PathBound()
                self.chk(And(new >= d, new <= d + 1e-6), 'a blocked agent retries right after the next departure',
                         'C12', new=new, dep=d)
                self.serving[e1][i][1] = new
                self.ctx.cover('blocked BAS')
            return 'departure', e1
        self.chk(o['depart'] == [(e1, a)] or (len(o['depart']) == 1 and o['depart'][0][1] is a),
                 'the agent that finished service departs', 'C10', 'C12', log=str(o['depart']))
        self.serving[e1].pop(i)
        self.finish_visit(a, e1, now)
        self.left(a, e1)
        if self.kind[e2] == 'NullQueue':
            self.chk(not o['arrive'] and not o['loss'], 'agents leave through a terminal queue', 'C10')
            self.gone.append(a)
            self.ctx.cover('left the network')
            if self.collect[e2]:
                self.visits.append([a.agent_id, e2, now, 0, 0, 0, 0])
        elif self.absorbs(a, e2):
            self.absorb(a, e2, o)
        else:
            self.routed.add(id(a))
            self.pending[e2].append([a, now])
            one = [x for x in o['arrive']] + [(e2, x) for x in o['loss']]
            self.chk(len(one) == 1 and one[0][0] == e2, 'the agent arrives at its target at once', 'C10',
                     log=str(o['arrive']))
            if len(one) != 1:
                raise PathBound()
            # with ties, another agent due now may come first
            if one[0][1] is not a:
                self.ctx.cover('routed agent ties an external arrival')
            # an agent waiting at e1 may have started before a came back to e1
            if e1 == e2:
                self.loop_starts(e1, a, o, now)
            self.enter(e2, one[0][1], o, now)
            self.ctx.cover('moved')
        self.starts(o, now)
        return 'departure', e1

    def left(self, a, k):
        """a has just departed from k (C24, C25)"""

    def absorbs(self, a, k):
        """Whether k takes what a carries and a itself disappears (C24)."""
        return False

    def loop_starts(self, k, a, o, now):
        """On a loop the server freed by a goes to the first in line before a joins it."""
        st = [x for kk, x in o['start'] if kk == k]
        if st and self.waiting[k] and st[0] is self.waiting[k][0]:
            o['start'].remove((k, st[0]))
            en = [x for x in o['ser'] if x[0] == k]
            if en:
                o['ser'].remove(en[0])
                self.waiting[k].pop(0)
                self.serving[k].append([st[0], en[0][2]])
                self.start_visit(st[0], k, now)

    # ---- between events
    def steady(self):
        net = self.net
        tot = self.total()
        self.chk(tot <= self.max_agents, 'never more agents than max_agents', 'C13', total=tot, most=self.max_agents)
        for k in range(self.nE):
            q = self.q(k)
            self.chk(net.num_agents[k] == self.held(k), 'num_agents counts the agents of each queue', 'C10',
                     k=k, got=net.num_agents[k], want=self.held(k))
            if self.kind[k] == 'NullQueue':
                continue
            self.chk(q.num_system == self.present(k), 'num_system is right', 'C10', k=k)
            self.chk(q.number_queued() == len(self.waiting[k]), 'number_queued is right', 'C10', k=k)
            if self.waiting[k]:
                self.chk(len(self.serving[k]) >= self.servers[k], 'no server idles while an agent waits', 'C10')
            self.chk(len(self.serving[k]) <= self.servers[k], 'no more agents in service than servers', 'C10')
            if self.finite(k):
                self.chk(self.present(k) <= self.servers[k] + self.buffer[k],
                         'a finite queue never holds more than servers plus buffer', 'C12', k=k)
                self.chk(q.num_blocked == self.blocked[k], 'num_blocked counts the blocked attempts', 'C12',
                         got=q.num_blocked, want=self.blocked[k])
            for a in self.waiting[k] + [x for x, _ in self.serving[k]] + [x for x, _ in self.pending[k]]:
                self.chk(a.blocked == self.ablocked[id(a)], 'each agent counts its blocked attempts', 'C12',
                         got=a.blocked, want=self.ablocked[id(a)])
            act = bool(q.active)
            if self.active[k] and not act:
                dried = self.arrivals_left[k] < 0
                self.chk(Or(dried, tot >= self.max_agents, self.last_total >= self.max_agents),
                         'a queue stops its arrivals only at the maximum', 'C13')
                self.ctx.cover('stopped at the maximum')
            elif act and not self.active[k]:
                self.chk(False, 'no event makes a queue active', 'C13')
            self.active[k] = act
        self.last_total = tot
        self.chk(net.time == self.nxt(), 'time is the time of the next event', 'C11', time=net.time, want=self.nxt())
        self.chk(net.current_time == self.clock, 'current_time is the time of the last event', 'C11')
        self.ctx.observe('n', [int(x) for x in net.num_agents])
        self.ctx.observe('t', net.current_time)


    # ---- data (C17)
    def collecting(self, on, ks, **sel):
        (self.net.start_collecting_data if on else self.net.stop_collecting_data)(**sel)
        for k in ks:
            self.collect[k] = on

    def clear_data(self, ks, **sel):
        self.net.clear_data(**sel)
        self.visits = [v for v in self.visits if v[1] not in ks]
        self.open = {i: v for i, v in self.open.items() if v[1] not in ks}

    def check_views(self, ks, **sel):
        label = ' (collection was off when a later visit began)' if self.stale else ''
        rows = [v for v in self.visits if v[1] in ks]
        got = self.net.get_queue_data(**sel)
        self.chk(len(got) == len(rows), 'one row per recorded visit of the selected queues' + label, 'C17', got=len(got),
                 want=len(rows), sel=sel)
        if len(got) != len(rows):
            raise PathBound()
        bound = self.match([[r[i] for i in range(6)] for r in got], rows, 'queue view' + label)
        for k in set(ks):
            mine = [r for r in got if bool(r[5] == k)]
            for x, y in zip(mine, mine[1:]):
                self.chk(x[0] <= y[0], 'the rows of a queue are in order of arrival', 'C17')
        ag = self.net.get_agent_data(**sel)
        ids = sorted(set(v[0] for v in rows))
        self.chk(sorted(ag) == ids, 'the agent view has every agent with a recorded visit and no other' + label, 'C17',
                 got=sorted(ag), want=ids, sel=sel)
        for i in ids:
            if i not in ag:
                continue
            mine = [v for v in rows if v[0] == i]
            g = [[r[j] for j in range(6)] for r in ag[i]]
            self.chk(len(g) == len(mine), 'the agent view has each recorded visit once' + label, 'C17', agent=i, got=len(g),
                     want=len(mine))
            if len(g) == len(mine):
                for x, y in zip(g, g[1:]):
                    self.chk(x[0] <= y[0], 'the visits of an agent are in order of arrival', 'C17')
                self.match(g, mine, 'agent view' + label)
        self.ctx.cover('data compared', len(rows) > 1)
        self.ctx.cover('an agent with several visits', len(ids) < len(rows))

    def match(self, got, rows, what):
        """The rows are the visits, each once."""
        left = list(rows)
        for r in got:
            best = None
            for v in left:
                want = [v[2], v[3], v[4], v[5], v[6], v[1]]
                c = And(*[near(x, y) for x, y in zip(r, want)])
                if c is True or (c is not False and bool(c)):
                    best = v
                    break
            self.chk(best is not None, what + ' shows each visit as it happened', 'C17', row=r, visits=left)
            if best is None:
                raise PathBound()
            left = [v for v in left if v is not best]


def near(x, y):
    if isinstance(x, SymNum) or isinstance(y, SymNum):
        return x == y
    return x == y or max(abs(x), abs(y)) < INF and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


TOPO = {
    'tandem': ({0: [1], 1: [2], 2: [2]},
               {(0, 1): 'QueueServer', (1, 2): 'LossQueue', (2, 2): 'NullQueue'}, [0]),
    'merge': ({0: [2], 1: [2], 2: [3], 3: [3]},
              {(0, 2): 'QueueServer', (1, 2): 'QueueServer', (2, 3): 'LossQueue', (3, 3): 'NullQueue'}, [0, 1]),
    'branch': ({0: [1], 1: [1, 0, 2], 2: [2]},
               {(0, 1): 'QueueServer', (1, 1): 'LossQueue', (1, 0): 'QueueServer', (1, 2): 'NullQueue',
                (2, 2): 'NullQueue'}, [0]),
    'cycle': ({0: [1], 1: [0]}, {(0, 1): 'LossQueue', (1, 0): 'LossQueue'}, [0, 1]),
    'loop': ({0: [0]}, {(0, 0): 'LossQueue'}, [0]),
    'feedback': ({0: [1], 1: [0, 1]}, {(0, 1): 'QueueServer', (1, 0): 'QueueServer', (1, 1): 'LossQueue'}, [0, 2]),
}


def build(ctx, topo, **kw):
    adj, kinds, active = TOPO[topo]
    a = kw.get('arrivals')
    if isinstance(a, (list, tuple)):          # for the initially active queues
        a = dict(zip(active, a))
        kw['arrivals'] = {k: a.get(k, 0) for k in range(len(kinds))}
    return Net(ctx, adj, kinds, **kw), active


def begin(ctx, m, start, warm=0, seed=0, gap=2, svc=4):
    if not warm:
        m.initialize(queues=start)
        return
    with engine.calm(ctx, seed, gap=gap, svc=svc):
        m.initialize(queues=start)
        for _ in range(warm):
            m.event()
    ctx.cover('crowded', m.total() > 5)


def history(ctx, topo='tandem', n=6, arrivals=2, smax=1, bmax=1, blocking='BAS', max_agents=None, agent='Agent',
            active=None, again=False, mlo=1, animated=False, warm=0, seed=0, svc=4, gap=2,
            room=None, **kw):
    """initialize() and n events (after `warm` events of one given run)."""
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    mx = ctx.int('max_agents', ge=mlo, le=max_agents) if max_agents is not None else None
    if room:                # given numbers of servers and buffer places
        s, b = room
    m, act = build(ctx, topo, servers=s, buffer=b, arrivals=arrivals, blocking=blocking, max_agents=mx, agent=agent,
                   **kw)
    start = active if active is not None else act
    m.animated = animated
    begin(ctx, m, start, warm, seed, gap, svc)
    for i in range(n):
        if again and i and ctx.choose(2, 'again'):
            again = False
            m.initialize(queues=act)
            ctx.cover('initialized again')
        if m.event() is None:
            break
    if max_agents is not None:
        ctx.cover('reached the maximum', m.total() == mx)


def stopping(ctx, topo='tandem', mode='n', warm=2, most=4, arrivals=2, run=(), **kw):
    """simulate(n=) and simulate(t=) of a network."""
    m, act = build(ctx, topo, arrivals=arrivals, buffer=kw.pop('buffer', 0), **kw)
    begin(ctx, m, act, **dict(run))
    for _ in range(warm):
        m.event()
    net = m.net
    marks = []
    e0 = net.num_events

    class Log(list):
        """Every call back from the library, with the event it belongs to."""
        def append(self, x):
            list.append(self, x)
            if x[0] in ('act', 'loss', 'dest'):
                marks.append((int(net.num_events), net.current_time))
                if net.num_events - e0 > most and mode == 't':
                    raise PathBound()
    m.log = Log()
    e0, t0 = net.num_events, net.current_time
    idle = net.time == INF
    if mode == 'n':
        n = ctx.int('n', ge=0, le=most)
        net.simulate(n=n)
        done = net.num_events - e0
        m.chk(done <= n, 'simulate(n) processes no more than n events', 'C07', got=done, n=n)
        m.chk(Or(done == n, net.time == INF), 'simulate(n) processes n events', 'C07', got=done, n=n)
        m.chk(len(set(k for k, _ in marks)) == done, 'each counted event happened', 'C07')
        ctx.cover('n events', done == n)
    else:
        t = ctx.real('t', ge=0)
        net.simulate(t=t)
        m.chk(Or(net.current_time >= t0 + t, net.time == INF), 'simulate(t) runs for at least t', 'C07')
        last = max([k for k, _ in marks] or [e0])
        for k, now in marks:
            if k < last:
                m.chk(now < t0 + t, 'simulate(t) stops with the first event at or past t', 'C07', at=now, end=t0 + t)
        m.chk(Or(t > 0, idle, net.num_events == e0), 'simulate(t=0) does nothing', 'C07')
        if marks:
            ctx.cover('t events')
    ctx.observe('end', int(net.num_events))
    ctx.observe('ct', net.current_time)


# ---------------------------------------------------------------- C17

def selections(m):
    """Ways to name queues: (the edge indices meant, the arguments)."""
    E = m.edges
    types = {k: m.q(k).edge[3] for k in range(m.nE)}
    out = [(list(range(m.nE)), {})]
    out.append(([0], dict(queues=0)))
    if m.nE > 1:
        out.append(([m.nE - 1, 0], dict(queues=[m.nE - 1, 0])))
    out.append(([1], dict(edge=E[1])) if m.nE > 1 else ([0], dict(edge=E[0])))
    out.append(([0, m.nE - 1], dict(edge=[E[0], E[m.nE - 1]])) if m.nE > 1 else ([0], dict(edge=[E[0]])))
    t = types[m.nE - 1]
    out.append(([k for k in types if types[k] == t], dict(edge_type=t)))
    return out


def data_views(ctx, topo='tandem', n=6, arrivals=2, bmax=1, toggles=1, blocking='BAS', room=None, run=(), **kw):
    """Both views of the data against everything that happened."""
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    s, b = room or (1, b)
    m, act = build(ctx, topo, servers=s, buffer=b, arrivals=arrivals, blocking=blocking, **kw)
    sels = selections(m)
    few = [sels[0], sels[1], sels[-1]][:3 if toggles else 1]
    ks, sel = few[ctx.choose(len(few), 'collect from')]
    m.collecting(True, ks, **sel)
    begin(ctx, m, act, **dict(run))
    for i in range(n):
        if toggles:
            op = ctx.choose(4, 'change')
            if op:
                toggles -= 1
                ks, sel = few[ctx.choose(len(few), 'of')]
                if op == 3:
                    m.clear_data(ks, **sel)
                    ctx.cover('data cleared')
                else:
                    m.collecting(op == 1, ks, **sel)
                    ctx.cover('collection stopped', op == 2)
        if m.event() is None:
            break
    for ks, sel in sels:
        m.check_views(ks, **sel)
    for view in (m.net.get_queue_data, m.net.get_agent_data):
        plain, labelled = view(), view(return_header=True)
        m.chk(len(labelled) == 2 and labelled[1] == 'arrival,service,departure,num_queued,num_total,q_id',
              'the columns of the data are labelled as documented', 'C17', got=labelled[1:])
        m.chk(len(labelled[0]) == len(plain), 'labels do not change the data', 'C17')
