"""Resource queues (C24), information queues (C25): bounded network histories
with the mirror of h_network, extended by what these queues and agents add."""
import engine
from engine import And, Or, Not, Implies, SymNum, PathBound

import queueing_tool as qt
import h_network
from h_network import Net
from h_queue import INF
import h_twin

h_network.TOPO.update({
    # resource queues: in pairs, behind another queue, on a loop, with a way out
    'pair': ({0: [1], 1: [0]}, {(0, 1): 'ResourceQueue', (1, 0): 'ResourceQueue'}, [0, 1]),
    'through': ({0: [1], 1: [2], 2: [0]}, {(0, 1): 'ResourceQueue', (1, 2): 'QueueServer', (2, 0): 'ResourceQueue'}, [0]),
    'self': ({0: [0]}, {(0, 0): 'ResourceQueue'}, [0]),
    'exit': ({0: [1], 1: [0, 2], 2: [2]}, {(0, 1): 'ResourceQueue', (1, 0): 'ResourceQueue', (1, 2): 'NullQueue',
                                          (2, 2): 'NullQueue'}, [0]),
    # information queues
    'ipair': ({0: [1], 1: [0]}, {(0, 1): 'InfoQueue', (1, 0): 'InfoQueue'}, [0, 1]),
    'imix': ({0: [1], 1: [2], 2: [0]}, {(0, 1): 'InfoQueue', (1, 2): 'QueueServer', (2, 0): 'InfoQueue'}, [0]),
    'iself': ({0: [0, 1], 1: [0]}, {(0, 0): 'InfoQueue', (0, 1): 'InfoQueue', (1, 0): 'InfoQueue'}, [0]),
})


class ResNet(Net):
    """servers[k] is the number of resources available at k."""

    def __init__(self, *a, **k):
        super(ResNet, self).__init__(*a, **k)
        self.holds = set()
        self.lost = 0
        self.over = {k: 0 for k in range(self.nE)}
        self.most = {k: 2 * self.servers[k] for k in range(self.nE)}
        self.all = sum(self.servers[k] for k in range(self.nE) if self.resource(k))

    def chk(self, c, label, *tags, **info):
        super(ResNet, self).chk(c, label, 'C24', *tags, **info)

    def resource(self, k):
        return self.kind[k] == 'ResourceQueue'

    def left(self, a, k):
        if self.resource(k) and id(a) not in self.holds:
            self.holds.add(id(a))
            self.servers[k] = self.servers[k] - 1
            self.ctx.cover('takes a resource')
        e2 = self.e2
        if self.kind[e2] == 'NullQueue' and id(a) in self.holds:
            self.holds.discard(id(a))
            self.lost += 1

    def absorbs(self, a, k):
        return self.resource(k) and id(a) in self.holds

    def absorb(self, a, k, o):
        self.chk(not o['arrive'] and not o['loss'], 'an agent that returns a resource disappears')
        self.holds.discard(id(a))
        self.gone.append(a)
        over = self.servers[k] >= self.most[k]
        self.over[k] = self.over[k] + (engine.Ite(over, 1, 0) if not isinstance(over, bool) else int(over))
        self.servers[k] = self.servers[k] + 1
        self.ctx.cover('returns a resource')

    def steady(self):
        super(ResNet, self).steady()
        total = self.lost + len(self.holds)
        for k in range(self.nE):
            q = self.q(k)
            if self.kind[k] == 'NullQueue':
                continue
            if self.resource(k):
                self.chk(q.num_servers == self.servers[k], 'a resource is taken on departure and returned on arrival',
                         k=k, got=q.num_servers, want=self.servers[k])
                self.chk(q.num_servers >= 0, 'no resource is taken that is not there', k=k)
                self.chk(q.over_max == self.over[k], 'returns beyond the maximum are counted', k=k, got=q.over_max,
                         want=self.over[k])
                total = total + q.num_servers
                self.ctx.cover('no resource left', q.num_servers == 0)
            if self.active[k]:
                self.chk(any(id(a) not in self.routed for a, _ in self.pending[k]),
                         'an active queue has its next external arrival scheduled', k=k)
        self.chk(total == self.all, 'resources available and held stay constant', got=total, want=self.all)


def resource(ctx, topo='pair', n=6, arrivals=2, smax=1, bmax=1, blocking='BAS', agent='ResourceAgent', room=None, run=(), **kw):
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    s, b = room or (s, b)
    adj, kinds, act = h_network.TOPO[topo]
    if isinstance(arrivals, (list, tuple)):
        a = dict(zip(act, arrivals))
        arrivals = {k: a.get(k, 0) for k in range(len(kinds))}
    m = ResNet(ctx, adj, kinds, servers=s, buffer=b, arrivals=arrivals, blocking=blocking, agent=agent, **kw)
    h_network.begin(ctx, m, act, **dict(run))
    for i in range(n):
        if m.event() is None:
            break


def resource_queue(ctx, n=5, smax=2, bmax=1, arrivals=4, changes=1, collect=False, anyset=False):
    """A resource queue by itself: agents with and without a resource arrive, servers are added by hand."""
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = ctx.int('buffer', ge=0, le=bmax) if bmax else 0
    log = []

    def chk(c, label, **info):
        ctx.check_that(c, label, ('C24',), **info)

    left = [arrivals]

    def arrival_f(t):
        left[0] -= 1
        return INF if left[0] < 0 else t + ctx.real('gap', ge=0)

    def service_f(t):
        r = t + ctx.real('svc', ge=0)
        log.append((t, r))
        return r

    class A(qt.ResourceAgent):
        __hash__ = object.__hash__

        def queue_action(self, queue, *args):
            acts.append((args[0] if args else None, self))
            super(A, self).queue_action(queue, *args)

        def add_loss(self, *a, **k):
            acts.append(('loss', self))
            super(A, self).add_loss(*a, **k)
    acts = []
    q = qt.ResourceQueue(num_servers=s, qbuffer=b, arrival_f=arrival_f, service_f=service_f, AgentFactory=A,
                         collect_data=collect)
    q.set_active()
    back = hasattr(q, '_add_arrival')
    if not back:
        ctx.cover('given back')
    avail, serving, waiting, out = s, 0, 0, []
    rows, mine = [], {}          # the data log (C06)

    def logged(acts, waits, here, back=None):
        now = q.current_time
        for w, a in acts:
            if w in (0, 'loss'):
                mine[id(a)] = [now, 0, 0, waits, here]
                rows.append(mine[id(a)])
            elif w in (1, 2) and id(a) in mine:
                mine[id(a)][w] = now
        if back is not None:
            rows.append([now, now, now, waits, here])

    for _ in range(n):
        if changes and ctx.choose(2, 'change'):
            changes -= 1
            del acts[:]
            if anyset:      # set by hand to any number, over the maximum and back to none
                avail = ctx.int('resources', ge=0, le=2 * smax + 1)
                ctx.cover('no resource left', avail == 0)
            else:
                avail = avail + ctx.int('more', ge=1, le=2)
            q.set_num_servers(avail)
            logged(acts, waiting, serving + waiting)
            ctx.cover('servers added')
            while waiting and bool(serving < avail):
                waiting, serving = waiting - 1, serving + 1
        elif out and back and ctx.choose(2, 'give back'):
            # an agent that departed comes back with its resource, next
            a = out[0]
            now = q.current_time
            if q.time == now:
                raise PathBound()
            out.pop(0)
            a._time = now
            q._add_arrival(a)
            del acts[:]
            q.next_event()
            chk(not acts or acts[0][1] is not a, 'an agent that returns a resource is not served')
            avail = avail + 1
            while waiting and bool(serving < avail):
                waiting, serving = waiting - 1, serving + 1
            logged(acts, waiting, serving + waiting, a)
            ctx.cover('given back')
        else:
            del acts[:]
            if q.time == INF:
                break
            x = q.next_event()
            if x is not None:
                chk(serving > 0, 'only an agent in service departs')
                serving -= 1
                took = True if not anyset else bool(avail > 0)
                if took:
                    avail = avail - 1
                    out.append(x)
                if waiting and bool(serving < avail):
                    waiting, serving = waiting - 1, serving + 1
                logged(acts, waiting, serving + waiting)
                ctx.cover('taken')
            elif [w for w, _ in acts] == ['loss']:
                chk(serving + waiting >= avail + b, 'only a full queue blocks')
                logged(acts, waiting, serving + waiting)
                ctx.cover('blocked')
            else:
                chk(serving + waiting < avail + b, 'a full queue admits nobody')
                if bool(serving < avail):
                    serving += 1
                else:
                    waiting += 1
                logged(acts, waiting, serving + waiting)
        chk(q.num_servers == avail, 'a resource is taken on departure and returned on arrival', got=q.num_servers, want=avail)
        chk(q.num_system == serving + waiting, 'the agents present are those that came and did not leave')
        chk(q.number_queued() == waiting, 'agents wait exactly while no resource is free', got=q.number_queued(), want=waiting)
        chk(anyset or serving <= avail, 'no more agents in service than resources')
        chk(q.num_servers >= 0, 'no resource is taken that is not there', got=q.num_servers)
        if q.active:
            chk(len(q._arrivals) > 1, 'an active queue has its next external arrival scheduled')
        ctx.observe('s', [q.num_servers, q.num_system])
    if collect:
        got = [[x for x in r] for r in q.fetch_data()]
        log6 = lambda c, label, **info: ctx.check_that(c, label, ('C06', 'C24'), **info)
        log6(len(got) == len(rows), 'one row per recorded arrival', got=len(got), want=len(rows))
        left = list(rows)
        for i, g in enumerate(got):
            if i:
                log6(got[i - 1][0] <= g[0], 'rows are sorted by arrival time')
            alts = [And(*[x == y for x, y in zip(g, r + [q.edge[2]])]) for r in left]
            log6(Or(*alts) if alts else False, 'every row is a visit that happened', row=g, left=left)
            for j, c in enumerate(alts):
                if c is True or (c is not False and bool(c)):
                    left.pop(j)
                    break


# ---------------------------------------------------------------- C25

class InfoNet(Net):
    def __init__(self, *a, **k):
        super(InfoNet, self).__init__(*a, **k)
        self.history = {k: [] for k in range(self.nE)}
        self.known = {}
        self.losses = {}         # id(agent) -> [agent, times turned away, per queue]

    def chk(self, c, label, *tags, **info):
        if not tags or 'C25' in tags:
            super(InfoNet, self).chk(c, label, 'C25', **info)
        else:
            super(InfoNet, self).chk(c, label, *tags, **info)

    def info(self, k):
        return self.kind[k] == 'InfoQueue'

    def happened(self, k):
        self.history[k].append((self.clock, self.servers[k], self.present(k)))

    def left(self, a, k):
        self.happened(k)

    def rows(self, x):
        return [[x.net_data[j][i] for i in range(3)] for j in range(self.nE)]

    def event(self):
        was = {('q', k): self.rows(self.q(k)) for k in range(self.nE) if self.info(k)}
        live = [a for k in range(self.nE) for a in self.waiting[k] + [x for x, _ in self.serving[k]] +
                [x for x, _ in self.pending[k]]]
        for a in live:
            was['a', id(a)] = self.rows(a)
        self.moved = []
        r = super(InfoNet, self).event()
        if r is None:
            return r
        for k in range(self.nE):
            if self.info(k):
                self.happened(k)
        now = {('q', k): self.rows(self.q(k)) for k in range(self.nE) if self.info(k)}
        for a in live:
            now['a', id(a)] = self.rows(a)
            self.chk(And(*[a.get_beliefs()[j] == self.rows(a)[j][2] for j in range(self.nE)]),
                     'the beliefs of an agent are the loads it knows')
        for a, ls in list(self.losses.values()) + [(a, [0] * self.nE) for a in live if id(a) not in self.losses]:
            self.chk(And(*[a.stats[j, 2] == ls[j] for j in range(self.nE)]),
                     'an agent knows which queues turned it away', got=a.stats, want=ls)
        for w, t in now.items():
            for j in range(self.nE):
                row, old = t[j], was[w][j]
                if not self.changed(row, old):
                    continue
                self.chk(Or(And(*[x == -1 for x in row]), *[self.was_so(row, h) for h in self.history[j]]),
                         'known states are states that were', who=w[0], about=j, row=row, history=self.history[j])
                self.chk(row[0] >= old[0], 'newer information is never overwritten by older', who=w[0], about=j, row=row,
                         old=old)
        for a, k, what in self.moved:
            if not self.info(k):
                continue
            n = now['a', id(a)] if ('a', id(a)) in now else self.rows(a)
            self.chk(And(n[k][0] == self.clock), 'an agent knows the queue it has just visited', what=what, k=k, row=n[k])
            for j in range(self.nE):
                self.chk(Or(n[j][0] >= was['q', k][j][0], j == k), 'an agent picks up what the queue knows', what=what,
                         about=j, got=n[j], queue=was['q', k][j])
                if what == 'enter':
                    self.chk(now['q', k][j][0] >= was['a', id(a)][j][0], 'an agent leaves what it knows at the queue',
                             about=j, got=now['q', k][j], agent=was['a', id(a)][j])
                    self.ctx.cover('knows about another queue', And(j != k, was['a', id(a)][j][0] >= 0))
        return r

    def changed(self, row, old):
        return any(x is not y for x, y in zip(row, old))

    def was_so(self, row, h):
        t, s, n = h
        load = row[2] * s == n if not (s == INF) else row[2] == 0
        return And(row[0] == t, row[1] == s, load)

    def enter(self, k, a, o, now):
        super(InfoNet, self).enter(k, a, o, now)
        if not o['loss']:
            self.moved.append((a, k, 'enter'))
        elif self.info(k):
            self.moved = [m for m in self.moved if m[0] is not a]
        if o['loss'] and isinstance(a, qt.InfoAgent):
            self.losses.setdefault(id(a), [a, [0] * self.nE])[1][k] += 1

    def departure(self, o, now):
        dep = list(o['depart'])
        r = super(InfoNet, self).departure(o, now)
        for k, a in dep:
            if not self.kind[self.e2] == 'NullQueue' and k != self.e2:
                self.moved.append((a, k, 'leave'))
        return r


def information(ctx, topo='ipair', n=5, arrivals=2, smax=1, bmax=None, blocking='BAS', room=None, run=(), **kw):
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = (ctx.int('buffer', ge=0, le=bmax) if bmax else 0) if bmax is not None else INF
    s, b = room or (s, b)
    adj, kinds, act = h_network.TOPO[topo]
    if isinstance(arrivals, (list, tuple)):
        a = dict(zip(act, arrivals))
        arrivals = {k: a.get(k, 0) for k in range(len(kinds))}
    nE = len(kinds)
    m = InfoNet(ctx, adj, kinds, servers=s, buffer=b, arrivals=arrivals, blocking=blocking, agent='InfoAgent',
                qextra={k: {'net_size': nE} for k, e in enumerate(sorted(kinds)) if kinds[e] == 'InfoQueue'}, **kw)
    h_network.begin(ctx, m, act, **dict(run))
    for i in range(n):
        if m.event() is None:
            break


def like_loss(ctx, kind='InfoQueue', n=5, arrivals=4, smax=2, bmax=1, changes=1):
    """An information queue, or a resource queue visited by other agents, and a loss queue given the same decisions."""
    s = ctx.int('servers', ge=1, le=smax) if smax > 1 else 1
    b = ctx.int('buffer', ge=0, le=bmax) if ctx.choose(2, 'finite') else INF
    cap = ctx.int('active_cap', ge=1, le=arrivals) if ctx.choose(2, 'limits') else None
    dt = ctx.real('deactive_t', ge=0) if cap is not None else None
    collect = bool(ctx.choose(2, 'collect'))
    t1 = h_twin.Tape(ctx, arrivals)
    t2 = h_twin.Tape(ctx, arrivals)
    t2.vals = t1.vals
    qs = [h_twin.make_queue(ctx, k, s, b, collect, cap, dt, AgentFactory=qt.Agent) for k in (kind, 'LossQueue')]
    if kind == 'InfoQueue':
        qs[0].AgentFactory = qt.InfoAgent
    tag = 'C25' if kind == 'InfoQueue' else 'C24'

    def both(f):
        for q, t in zip(qs, (t1, t2)):
            h_twin.TAPE = t
            f(q)
        x, y = h_twin.qstate(qs[0]), h_twin.qstate(qs[1])
        for k in ('known', 'over', 'palette'):
            x.pop(k, None), y.pop(k, None)
        ctx.check_that(h_twin.same(x, y), 'this queue behaves like a loss queue', (tag,), kind=kind,
                       differ=[d for d in h_twin.differ(x, y)][:3])
    both(lambda q: q.set_active())
    ops = [lambda q: q.set_num_servers(3), lambda q: q.delay_service(), lambda q: q.set_inactive(), lambda q: q.set_active(),
           lambda q: q.clear()]
    for i in range(n):
        if changes:
            k = ctx.choose(len(ops) + 1, 'change')
            if k:
                changes -= 1
                both(ops[k - 1])
                ctx.cover('changed')
        both(lambda q: q.next_event())
    ctx.cover('compared')
    ctx.observe('end', [qs[0].num_system, qs[0].current_time])
