"""Bounded histories of one stand-alone queue, driven through its public API.

Everything random or timed is symbolic: inter-arrival gaps, service durations,
number of servers, buffer, caps, stop times; the harness also chooses
nondeterministically among the operations a user can call between events.  A
mirror of the queue is kept purely from what the library tells its documented
hooks (the arrival and service functions it calls, the agent factory,
`queue_action`, `add_loss`, the agent `next_event` returns) and every step is
checked for legality against it."""
import contextlib

import engine
from engine import And, Or, Not, Implies, Iff, Min, Sum, Count, SymBool, SymNum, PathBound

import queueing_tool as qt
import numpy as _np

INF = _np.infty


class TAgent(qt.Agent):
    """An ordinary agent that reports what happens to it."""
    log = None

    def __init__(self, agent_id=(0, 0), *a, **k):
        super(TAgent, self).__init__(agent_id)

    def queue_action(self, queue, *args, **kwargs):
        self.log.append(('act', args[0] if args else None, self, queue, queue.current_time))

    def add_loss(self, *args, **kwargs):
        super(TAgent, self).add_loss(*args, **kwargs)
        self.log.append(('loss', self))

    def __repr__(self):
        return 'A%s' % (self.agent_id,)

    __hash__ = object.__hash__


def ident(a, xs):
    for i, x in enumerate(xs):
        if x is a:
            return i
    return -1


class Mirror(object):
    def __init__(self, ctx, kind='QueueServer', servers=1, qbuffer=0, active_cap=None,
                 deactive_t=None, collect=False, edge=(0, 1, 3, 1), gap_gt=None, zero_service=True,
                 qclass=None, extra=None, max_arrivals=None, infinite_after=None, reuse=False):
        self.ctx = ctx
        self.reuse = reuse
        self.log = []
        self.kind = kind
        self.servers, self.buffer = servers, qbuffer
        self.active_cap = INF if active_cap is None else active_cap
        self.deactive_t = INF if deactive_t is None else deactive_t
        self.collect = collect
        self.edge = edge
        self.gap_gt = gap_gt
        self.arr_calls = []      # (t, result)
        self.ser_calls = []
        self.created = []        # [agent, arrival time]
        self.ids = []            # ids the queue gave them
        self.pending = []        # created, not yet arrived: [agent, time]
        self.waiting = []
        self.serving = []        # [agent, end]
        self.accepted = self.departed = self.blocked = 0
        self.clock = 0
        self.rows = {}           # agent_id -> list of rows (C06)
        self.active = False
        self.max_arrivals = max_arrivals
        self.zero_service = zero_service
        m = self

        class Agent(TAgent):
            log = m.log

        def arrival_f(t):
            m.log.append(('arr_f', t))
            if m.max_arrivals is not None and len(m.arr_calls) >= m.max_arrivals:
                r = INF                 # the stream dries up
            else:
                g = ctx.real('gap', ge=0) if m.gap_gt is None else ctx.real('gap', gt=m.gap_gt)
                r = t + g
            m.arr_calls.append((t, r))
            return r

        def service_f(t):
            d = ctx.real('svc', ge=0)
            m.log.append(('ser_f', t, t + d))
            return t + d

        def factory(agent_id, *a):
            x = Agent(m.recall(agent_id) if m.reuse else agent_id)
            m.log.append(('new', x, agent_id))
            return x

        kw = dict(num_servers=servers, arrival_f=arrival_f, service_f=service_f, edge=edge,
                  AgentFactory=factory, collect_data=collect)
        if active_cap is not None:
            kw['active_cap'] = active_cap
        if deactive_t is not None:
            kw['deactive_t'] = deactive_t
        if kind in ('LossQueue', 'ResourceQueue'):
            kw['qbuffer'] = qbuffer
        if kind == 'InfoQueue':
            kw['net_size'] = 4
            kw['qbuffer'] = qbuffer
        kw.update(extra or {})
        self.q = (qclass or getattr(qt, kind))(**kw)
        self.lossy = kind != 'QueueServer'

    # ---- helpers
    def recall(self, agent_id):
        """Somebody who has been here before comes again (once gone): an agent with its id."""
        here = [x for x, _ in self.pending] + self.waiting + [x for x, _ in self.serving]
        gone = []
        for x, _ in self.created:
            if ident(x, here) < 0 and x.agent_id not in gone and all(x.agent_id != y.agent_id for y in here):
                gone.append(x.agent_id)
        plan = self.ctx.plan
        k = 0 if not gone else self.ctx.choose(len(gone) + 1, 'comes again') if plan is None else int(plan('again', 0, len(gone) + 1))
        if k:
            self.ctx.cover('comes again')
        return gone[k - 1] if k else agent_id

    def chk(self, c, label, *tags, **info):
        self.ctx.check_that(c, label, tags, **info)

    def capacity(self):
        return self.servers + self.buffer

    def arr_min(self):
        return Min([t for _, t in self.pending])

    def dep_min(self):
        return Min([t for _, t in self.serving])

    def take(self):
        """Digest the log since the last call."""
        ev = list(self.log)
        del self.log[:]
        return ev

    # ---- digesting what the library reported during one call
    def digest(self, ev, clock):
        """Creates/pairs agents; returns (arrived, started, departed, lost)."""
        arrived, started, departed, lost = [], [], [], []
        ends = []
        last_arr = None
        for e in ev:
            if e[0] == 'arr_f':
                # documented: t is the current time
                self.chk(e[1] == clock, 'arrival_f receives the current time', 'C05', got=e[1], clock=clock)
                last_arr = self.arr_calls[self.narr][1]
                self.narr += 1
                self.last_drawn = last_arr
                self.chk(self.active_at_call, 'arrival_f is only consulted while active', 'C05')
            elif e[0] == 'new':
                self.chk(last_arr is not None, 'an agent is created only with an arrival time', 'C05')
                self.created.append([e[1], last_arr])
                self.pending.append([e[1], last_arr])
                self.chk(len(self.created) <= self.active_cap, 'no more than active_cap arrivals', 'C05',
                         created=len(self.created), cap=self.active_cap)
                self.chk(last_arr <= self.deactive_t, 'no arrival after deactive_t', 'C05')
                self.chk(e[2][0] == self.edge[2], 'agent id carries the edge index', 'C01')
                self.chk(all(e[2] != x for x in self.ids), 'agent ids are unique', 'C01')
                self.ids.append(e[2])
                last_arr = None
            elif e[0] == 'ser_f':
                self.chk(e[1] == clock, 'service_f receives the time service starts', 'C03',
                         got=e[1], clock=clock)
                ends.append(e[2])
            elif e[0] == 'act':
                _, what, a, queue, now = e
                self.chk(queue is self.q, 'queue_action receives the queue', 'C01')
                if what == 0:
                    arrived.append(a)
                elif what == 1:
                    started.append(a)
                elif what == 2:
                    departed.append(a)
            elif e[0] == 'loss':
                lost.append(e[1])
        self.chk(len(ends) == len(started), 'one service time per service start', 'C03',
                 ends=len(ends), started=len(started))
        return arrived, list(zip(started, ends)), departed, lost

    narr = 0
    active_at_call = True
    last_drawn = None

    # ---- operations
    def set_active(self):
        self.active_at_call = True
        was = self.q.active
        self.q.set_active()
        ev = self.take()
        if was:
            self.chk(not ev and self.q.active, 'activating an active queue changes nothing', 'C05')
        a, s, d, l = self.digest(ev, self.clock)
        self.chk(not a and not s and not d and not l, 'set_active moves no agent', 'C01')
        self.steady()

    def set_inactive(self):
        self.q.set_inactive()
        ev = self.take()
        self.chk(not ev, 'set_inactive does nothing but deactivate', 'C05')
        self.chk(self.q.active == False, 'inactive after set_inactive', 'C05')
        self.steady()

    def set_num_servers(self, n):
        self.q.set_num_servers(n)
        self.servers = n
        a, s, d, l = self.digest(self.take(), self.clock)
        self.chk(not a and not d and not l, 'set_num_servers admits or releases no agent', 'C01')
        self.starts(s)
        self.chk(self.q.num_servers == n, 'num_servers is what was set', 'C03')
        self.steady()

    def delay_service(self, t=None):
        """The next departing agent gets a new departure time."""
        if not self.serving:
            before = self.snapshot()
            self.q.delay_service() if t is None else self.q.delay_service(t)
            self.chk(not self.take(), 'nothing to delay', 'C03')
            self.steady()
            return
        dm = self.dep_min()
        cands = [i for i, (x, e) in enumerate(self.serving)]
        self.q.delay_service() if t is None else self.q.delay_service(t)
        ev = self.take()
        if t is None:
            self.chk(len(ev) == 1 and ev[0][0] == 'ser_f', 'one extra service time is drawn', 'C03')
            if len(ev) == 1:
                self.chk(ev[0][1] == dm, 'the extra service starts at the old departure time', 'C03')
                t = ev[0][2]
        else:
            self.chk(not ev, 'an explicit delay draws nothing', 'C03')
        # which one was the next to depart (ties: any of them; decided here)
        k = None
        for i, (x, e) in enumerate(self.serving):
            if bool(e == dm):
                k = i
                break
        ties = [i for i, (x, e) in enumerate(self.serving) if i != k and bool(e == dm)]
        if ties:
            raise PathBound()          # which of the tied agents moved is not observable here
        self.serving[k][1] = t
        self.steady()

    def starts(self, started):
        """Agents that entered service: FIFO, only onto free servers, all of them."""
        for a, end in started:
            i = ident(a, self.waiting)
            self.chk(i == 0, 'service starts in order of arrival (FIFO)', 'C03', pos=i)
            if i >= 0:
                self.waiting.pop(i)
            self.chk(len(self.serving) < self.servers, 'service starts only on a free server', 'C03',
                     serving=len(self.serving), servers=self.servers)
            self.serving.append([a, end])
            if a in self.rows_open and self.collect:
                self.rows_open[a][1] = self.clock
        if self.waiting:
            self.chk(len(self.serving) >= self.servers, 'no server idles while an agent waits', 'C03',
                     serving=len(self.serving), servers=self.servers, waiting=len(self.waiting))
            self.ctx.cover('agent waits')

    @property
    def rows_open(self):
        try:
            return self._ro
        except AttributeError:
            self._ro = {}
            return self._ro

    def event(self, via='next_event'):
        """One event, and everything that must be true of it."""
        q, ctx = self.q, self.ctx
        am, dm = self.arr_min(), self.dep_min()
        nxt = Min([am, dm])
        desc = q.next_event_description()
        self.chk(q.time == nxt, 'time is the time of the next event', 'C02', time=q.time, expected=nxt)
        self.active_at_call = q.active
        if via == 'simulate':
            q.simulate(n=1)
            ret = None
        else:
            ret = q.next_event()
        ev = self.take()
        old = self.clock
        if nxt is INF or (not isinstance(nxt, SymNum) and nxt == INF):
            self.chk(desc == 0, 'description is 0 iff nothing is scheduled', 'C02', desc=desc)
            self.chk(not ev and ret is None, 'no event happens when none is scheduled', 'C02', ev=ev)
            self.chk(q.current_time == old, 'the clock stands still without events', 'C02')
            self.steady()
            ctx.cover('nothing scheduled')
            return None
        self.chk(q.current_time == nxt, 'the clock is the time of the event', 'C02',
                 current=q.current_time, expected=nxt)
        self.chk(nxt >= old, 'the clock never runs backwards', 'C02')
        self.clock = nxt
        arrived, started, departed, lost = self.digest(ev, self.clock)
        self.chk(len(arrived) + len(departed) + len(lost) == 1, 'exactly one arrival or departure per event', 'C01',
                 arrived=arrived, departed=departed, lost=lost)
        kind = None
        if departed:
            kind = 2
            a = departed[0]
            i = ident(a, [x for x, _ in self.serving])
            self.chk(i >= 0, 'only an agent in service departs', 'C01', 'C03')
            self.chk(ret is a or via == 'simulate', 'next_event returns the departing agent', 'C01')
            if i >= 0:
                end = self.serving[i][1]
                self.chk(end == nxt, 'an agent departs exactly when its service ends', 'C03', end=end, now=nxt)
                self.serving.pop(i)
            self.chk(dm <= am, 'the earliest event happens first', 'C02', dep=dm, arr=am)
            self.departed += 1
            if a in self.rows_open and self.collect:
                self.rows_open.pop(a)[2] = self.clock
            ctx.cover('departure')
        else:
            kind = 1
            a = (arrived + lost)[0] if (arrived or lost) else None
            self.chk(ret is None or via == 'simulate', 'an arrival returns nothing', 'C01')
            self.chk(am <= dm, 'the earliest event happens first', 'C02', dep=dm, arr=am)
            i = ident(a, [x for x, _ in self.pending])
            self.chk(i >= 0, 'only a created agent arrives, once', 'C01')
            if i >= 0:
                self.chk(self.pending[i][1] == nxt, 'an agent arrives at its arrival time', 'C02', 'C05')
                self.pending.pop(i)
            nsys = len(self.waiting) + len(self.serving)
            if lost:
                self.chk(self.lossy, 'an infinite queue never blocks', 'C04')
                self.chk(nsys >= self.capacity(), 'an agent is blocked only when the queue is full', 'C04',
                         nsys=nsys, cap=self.capacity())
                self.chk(a.blocked == 1, 'the blocked agent is told once', 'C04', blocked=a.blocked)
                self.blocked += 1
                if self.collect_now():
                    self.rows.setdefault(a.agent_id, []).append(
                        [self.clock, 0, 0, len(self.waiting), nsys])
                ctx.cover('blocked')
            else:
                if self.lossy:
                    self.chk(nsys < self.capacity(), 'an agent is admitted only below capacity', 'C04',
                             nsys=nsys, cap=self.capacity())
                self.accepted += 1
                self.waiting.append(a)
                if self.collect_now():
                    # the number of agents waiting, counting this one if it has to wait
                    free = len(self.serving) < self.servers
                    wl = engine.Ite(free, len(self.waiting) - 1, len(self.waiting)) if isinstance(free, SymBool) \
                        else len(self.waiting) - (1 if free else 0)
                    row = [self.clock, 0, 0, wl, nsys + 1]
                    self.rows.setdefault(a.agent_id, []).append(row)
                    self.rows_open[a] = row
                ctx.cover('arrival')
        self.chk(desc == kind, 'next_event_description names the event that happens', 'C02', desc=desc, kind=kind)
        self.starts(started)
        self.steady()
        return kind

    def collect_now(self):
        return self.collect

    # ---- what must hold between events
    def steady(self):
        q = self.q
        n = len(self.waiting) + len(self.serving)
        self.chk(q.num_system == n, 'num_system counts the agents present', 'C01', got=q.num_system, want=n)
        self.chk(q.number_queued() == len(self.waiting), 'number_queued counts the agents waiting', 'C01',
                 got=q.number_queued(), want=len(self.waiting))
        self.chk(q.num_arrivals[0] == self.accepted, 'num_arrivals counts the arrivals so far', 'C01',
                 got=q.num_arrivals[0], want=self.accepted)
        self.chk(q.num_arrivals[1] == len(self.created), 'num_arrivals counts the agents created', 'C01')
        self.chk(q.num_departures == self.departed, 'num_departures counts the departures', 'C01')
        self.chk(q.num_arrivals[0] == q.num_departures + q.num_system, 'arrivals = departures + present', 'C01')
        self.chk(len(self.created) == self.accepted + self.blocked + len(self.pending),
                 'every created agent is pending, admitted or blocked', 'C01')
        if self.lossy:
            self.chk(q.num_blocked == self.blocked, 'num_blocked counts the blocked arrivals', 'C04',
                     got=q.num_blocked, want=self.blocked)
            self.chk(Iff(q.at_capacity(), n >= self.capacity()), 'at_capacity tells whether the queue is full', 'C04')
        else:
            self.chk(q.at_capacity() == False, 'an infinite queue is never at capacity', 'C04')
        nxt = Min([self.arr_min(), self.dep_min()])
        self.chk(q.time == nxt, 'time is the time of the next event', 'C02', time=q.time, expected=nxt)
        self.chk(q.current_time == self.clock, 'current_time is the time of the last event', 'C02')
        act = q.active
        if act:
            self.chk(len(self.pending) > 0, 'an active queue has an arrival scheduled', 'C05')
            self.chk(len(self.created) < self.active_cap, 'a queue that reached active_cap is inactive', 'C05',
                     created=len(self.created), cap=self.active_cap)
        if self.max_arrivals is None or len(self.arr_calls) <= self.max_arrivals:
            pass
        self.ctx.observe('st', [int(x) for x in (q.num_system, q.number_queued(), q.num_arrivals[0],
                                                q.num_arrivals[1], q.num_departures)])
        self.ctx.observe('t', q.time)
        self.ctx.observe('ct', q.current_time)

    def snapshot(self):
        q = self.q
        return (q.num_system, q.number_queued(), list(q.num_arrivals), q.num_departures, q.active)

    def check_data(self):
        """The data log against the mirror (C06)."""
        q = self.q
        want = []
        for rs in self.rows.values():
            for r in rs:
                want.append(list(r) + [self.edge[2]])
        got = q.fetch_data()
        self.chk(len(got) == len(want), 'one row per recorded arrival', 'C06', got=len(got), want=len(want))
        if len(got) != len(want):
            return
        for i in range(1, len(got)):
            self.chk(got[i - 1][0] <= got[i][0], 'rows are sorted by arrival time', 'C06')
        # same multiset of rows: match greedily on equality of the whole row
        left = list(want)
        for g in got:
            alts = [And(*[x == y for x, y in zip(g, w)]) for w in left]
            self.chk(Or(*alts) if alts else False, 'every row is a visit that happened', 'C06',
                     row=list(g), left=left)
            for j, c in enumerate(alts):
                if bool(c):
                    left.pop(j)
                    break
        d2, header = q.fetch_data(return_header=True)
        self.chk(header == 'arrival,service,departure,num_queued,num_total,q_id', 'documented header', 'C06')
        self.ctx.observe('rows', len(got))


# --------------------------------------------------------------------------
# harnesses

def sym_servers(ctx, lo=1, hi=3, inf=False, name='servers'):
    if inf and ctx.choose(2, 'inf servers'):
        return INF
    return ctx.int(name, ge=lo, le=hi)


def events(ctx, kind='QueueServer', n=6, smin=1, smax=3, inf=False, bmax=2, collect=False, via='next_event',
           arrivals=None, data_each=False):
    """set_active(), then n events."""
    s = sym_servers(ctx, smin, smax, inf)
    b = ctx.int('buffer', ge=0, le=bmax) if kind != 'QueueServer' else 0
    m = Mirror(ctx, kind, s, b, collect=collect, max_arrivals=arrivals)
    m.steady()
    m.set_active()
    for i in range(n):
        m.event(via)
        if data_each:
            m.check_data()
    if collect:
        m.check_data()


def servers_change(ctx, n=6, changes=2, smax=3, kind='QueueServer', arrivals=None, inf=True, bmax=1):
    """Events interleaved with set_num_servers at arbitrary points."""
    s = sym_servers(ctx, 1, smax, inf)
    b = ctx.int('buffer', ge=0, le=bmax) if kind != 'QueueServer' else 0
    m = Mirror(ctx, kind, s, b, max_arrivals=arrivals)
    m.set_active()
    left = changes
    i = 0
    while i < n:
        if left and i > 0 and ctx.choose(2, 'change servers?'):
            left -= 1
            new = sym_servers(ctx, 1, smax, inf, 'new_servers')
            before = len(m.serving)
            m.set_num_servers(new)
            if len(m.serving) > before:
                ctx.cover('servers grow with agents waiting')
            if bool(len(m.serving) > new):
                ctx.cover('servers shrink below the agents in service')
            continue
        m.event()
        i += 1


def delays(ctx, n=6, ndelay=2, smax=2, kind='QueueServer', arrivals=None):
    """Events interleaved with delay_service."""
    s = ctx.int('servers', ge=1, le=smax)
    m = Mirror(ctx, kind, s, 1 if kind != 'QueueServer' else 0, max_arrivals=arrivals)
    m.set_active()
    left = ndelay
    i = 0
    while i < n:
        k = ctx.choose(3, 'delay?') if left and i > 0 else 0
        if k:
            left -= 1
            if m.serving:
                ctx.cover('service delayed')
            if k == 1:
                m.delay_service()
            else:
                m.delay_service(m.clock + ctx.real('delay', ge=0))
            continue
        m.event()
        i += 1


def control(ctx, n=5, toggles=2, kind='QueueServer', cap=2, use_cap=True, use_stop=True, arrivals=None):
    """External arrivals under set_active/set_inactive, active_cap, deactive_t."""
    c = ctx.int('active_cap', ge=0, le=cap) if use_cap else None
    d = ctx.real('deactive_t', ge=0) if use_stop else None
    if use_cap and use_stop:
        w = ctx.choose(2, 'which stop')
        c, d = (c, None) if w == 0 else (None, d)
    m = Mirror(ctx, kind, 1, 3 if kind != 'QueueServer' else 0, active_cap=c, deactive_t=d, max_arrivals=arrivals)
    m.steady()
    left = toggles
    i = 0
    m.set_active()
    while i < n:
        if left:
            k = ctx.choose(3, 'toggle?')
            if k == 1:
                left -= 1
                m.set_active()
                continue
            if k == 2:
                left -= 1
                m.set_inactive()
                ctx.cover('deactivated')
                continue
        if not m.q.active and m.pending == []:
            ctx.cover('stream ended')
        if m.event() is None:
            if not left:
                break
        i += 1
    if use_cap and c is not None and bool(c == len(m.created)) and len(m.created):
        ctx.cover('cap reached')


def crowded(ctx, kind='QueueServer', servers=4, qbuffer=6, warm=24, n=3, collect=False, svc=16, seed=0, smax=7, most=1, stop=False,
            reuse=False):
    """A long run of a busy queue, and then anything."""
    m = Mirror(ctx, kind, servers, qbuffer if kind != 'QueueServer' else 0, collect=collect, reuse=reuse,
               deactive_t=None if not stop else ctx.real('deactive_t', ge=warm))
    with engine.calm(ctx, seed, gap=2, svc=svc):
        m.set_active()
        for _ in range(warm):
            m.event()
    ctx.cover('crowded', len(m.waiting) > 3)
    left = most
    while n:
        n -= 1
        op = ctx.choose(5, 'op') if left else 0
        left -= op > 0
        if op == 1:
            m.set_num_servers(ctx.int('servers', ge=1, le=smax))
        elif op == 2:
            m.delay_service()
        elif op == 3:
            m.delay_service(m.clock + ctx.real('delay', ge=0))
        elif op == 4:
            if m.q.active:
                m.set_inactive()
            m.set_active()
        else:
            m.event()
    if collect:
        m.check_data()


def data_log(ctx, n=6, toggles=0, smax=2, kind='QueueServer', arrivals=None, reuse=False):
    """The data log, with collection switched on and off in between."""
    s = ctx.int('servers', ge=1, le=smax)
    b = ctx.int('buffer', ge=0, le=1) if kind != 'QueueServer' else 0
    m = Mirror(ctx, kind, s, b, collect=True, max_arrivals=arrivals, reuse=reuse)
    m.set_active()
    left, i = toggles, 0
    while i < n:
        if left and ctx.choose(2, 'toggle?'):
            left -= 1
            m.collect = not m.collect
            m.q.collect_data = m.collect
            continue
        m.event()
        i += 1
    m.check_data()
    if m.rows:
        ctx.cover('data collected')


def stopping(ctx, kind='QueueServer', mode='t', warm=2, most=4, smax=2, arrivals=5, given=None, room=None):
    """simulate(n=), simulate(t=), simulate(nA=), simulate(nD=)."""
    s = ctx.int('servers', ge=1, le=smax)
    b = ctx.int('buffer', ge=0, le=1) if kind != 'QueueServer' else 0
    s, b = room or (s, b)
    m = Mirror(ctx, kind, s, b, max_arrivals=arrivals)
    ev = [0]
    q = m.q
    base = type(q)
    orig = q.next_event

    class Counted(base):
        """Counts the events simulate() asks for (public method, overridden)."""
        def next_event(self):
            ev[0] += 1
            if mode != 'n' and self.time == INF:
                idle[0] += 1
                if idle[0] > 2:
                    m.chk(False, 'simulate() returns when nothing is left to happen', 'C07')
                    raise PathBound()
            counts.append((self.current_time, self.num_departures, self.num_arrivals[1], self.time))
            if ev[0] > bound[0]:
                raise PathBound()
            return super(Counted, self).next_event()
    counts, idle, bound = [], [0], [3 * most + 8 + warm]
    q.__class__ = Counted
    with contextlib.nullcontext() if given is None else engine.calm(ctx, given, gap=2, svc=12):
        q.set_active()
        for _ in range(warm):
            q.next_event()
    if warm < 2 and ctx.choose(2, 'inactive'):   # what has been scheduled still comes
        q.set_inactive()
        ctx.cover('inactive')
    ev[0], bound[0] = 0, 3 * most + 8 if given is None else most + 3
    del counts[:]
    t0, nd0, na0 = q.current_time, q.num_departures, q.num_arrivals[1]
    if mode == 'n':
        n = ctx.int('n', ge=0, le=most)
        k0 = q.num_arrivals[0] + q.num_departures + (q.num_blocked if kind != 'QueueServer' else 0)
        had = q.time < INF
        q.simulate(n=n)
        k1 = q.num_arrivals[0] + q.num_departures + (q.num_blocked if kind != 'QueueServer' else 0)
        m.chk(k1 - k0 <= n, 'simulate(n) processes no more than n events', 'C07')
        m.chk(Or(k1 - k0 == n, q.time == INF), 'simulate(n) processes n events', 'C07', got=k1 - k0, n=n)
        ctx.cover('n events', k1 - k0 == n)
    elif mode == 't':
        t = ctx.real('t', ge=0)
        q.simulate(t=t)
        m.chk(Or(q.current_time >= t0 + t, q.time == INF), 'simulate(t) runs for at least t', 'C07')
        if counts:
            m.chk(counts[-1][0] < t0 + t, 'simulate(t) stops at the first event past t', 'C07')
            ctx.cover('t events')
        m.chk(And(*[And(c[0] < t0 + t) for c in counts]), 'simulate(t) never overshoots by an event', 'C07')
    elif mode == 'nD':
        n = ctx.int('nD', ge=0, le=most)
        q.simulate(nD=n)
        got = q.num_departures - nd0
        m.chk(Or(got == n, And(got < n, q.time == INF)), 'simulate(nD) observes exactly nD departures', 'C07',
              got=got, n=n)
        if counts:
            m.chk(counts[-1][1] - nd0 < n, 'simulate(nD) stops at the last departure', 'C07')
            ctx.cover('nD departures')
    else:
        n = ctx.int('nA', ge=0, le=most)
        q.simulate(nA=n)
        got = q.num_arrivals[1] - na0
        m.chk(Or(got == n, And(got < n, q.time == INF)), 'simulate(nA) observes exactly nA arrivals', 'C07',
              got=got, n=n)
        if counts:
            m.chk(counts[-1][2] - na0 < n, 'simulate(nA) stops at the last arrival', 'C07')
            ctx.cover('nA arrivals')
    ctx.observe('end', [int(q.num_departures), int(q.num_arrivals[1]), ev[0]])
    ctx.observe('ct', q.current_time)
