"""The registry: property -> exploration jobs per tier."""


def J(harness, name=None, **params):
    return {'harness': harness, 'name': name or harness, 'params': params}


CHECKS = {}
Q = 'h_queue:'


def ev(tier, kind='QueueServer', d=0, **k):
    t = tier == 'thorough'
    name = ('Loss' if kind == 'LossQueue' else 'QS') + '-events'
    return J(Q + 'events', name, kind=kind, n=(9 if t else 7) + d, arrivals=6 if t else 5, **k)


def servers(tier, kind='QueueServer', d=0):
    t = tier == 'thorough'
    if kind == 'QueueServer':
        return J(Q + 'servers_change', 'QS-servers', n=(7 if t else 5) + d, changes=2, smax=3,
                 arrivals=5 if t else 4, inf=t)
    return J(Q + 'servers_change', 'Loss-servers', kind=kind, n=(7 if t else 6) + d, changes=1, smax=3,
             inf=False, arrivals=4)


def endless(tier, d=0):
    t = tier == 'thorough'
    return J(Q + 'servers_change', 'QS-servers-inf', n=(7 if t else 5) + d, changes=1, smax=3, arrivals=4)


def delays(tier, d=0):
    t = tier == 'thorough'
    return J(Q + 'delays', 'QS-delays', n=(7 if t else 6) + d, ndelay=2 if t else 1, arrivals=5 if t else 4)


def control(tier, kind='QueueServer', d=0):
    t = tier == 'thorough'
    return J(Q + 'control', ('Loss' if kind == 'LossQueue' else 'QS') + '-control', kind=kind, n=5 + d,
             toggles=3 if t else 2, cap=3 if t else 2)


CHECKS['C01'] = dict(jobs=lambda t: [ev(t, inf=True), ev(t, 'LossQueue', smax=2), servers(t, d=-1), endless(t, d=-1), control(t, d=-1)],
                     covers=['arrival', 'departure', 'agent waits', 'blocked'])
CHECKS['C02'] = dict(jobs=lambda t: [ev(t, inf=True), ev(t, 'LossQueue', smax=2), delays(t), servers(t, d=-1), endless(t),
                                     control(t, d=-1)],
                     covers=['arrival', 'departure', 'agent waits', 'blocked', 'nothing scheduled'])
CHECKS['C03'] = dict(jobs=lambda t: [ev(t, inf=True), servers(t), servers(t, 'LossQueue'), endless(t), delays(t)],
                     covers=['agent waits', 'servers grow with agents waiting',
                             'servers shrink below the agents in service', 'service delayed'])
CHECKS['C04'] = dict(jobs=lambda t: [ev(t, 'LossQueue'), servers(t, 'LossQueue'), ev(t, d=-2)], covers=['blocked'])
CHECKS['C05'] = dict(jobs=lambda t: [control(t), control(t, 'LossQueue', d=-1),
                                     J(Q + 'control', 'QS-control-often', n=4, toggles=3, cap=3)],
                     covers=['deactivated', 'stream ended', 'cap reached'])
CHECKS['C06'] = dict(jobs=lambda tier: [[
    J(Q + 'data_log', 'QS-data', n=7 + d, arrivals=4),
    J(Q + 'data_log', 'Loss-data', kind='LossQueue', n=6 + d, arrivals=4),
    J(Q + 'data_log', 'QS-data-toggle', n=5 + d, toggles=2, arrivals=3),
    J(Q + 'data_log', 'Loss-again', kind='LossQueue', n=6 + d, smax=1, arrivals=4, reuse=True),
    J(Q + 'data_log', 'QS-again', n=6 + d, smax=1, arrivals=3, reuse=True),
] for d in [1 if tier == 'thorough' else 0]][0], covers=['data collected', 'comes again'])
CHECKS['C07'] = dict(jobs=lambda tier: [
    J(Q + 'stopping', '%s-%s' % (k, mo), kind=k, mode=mo, most=4 if tier == 'thorough' else 3, arrivals=5 if tier == 'thorough' else 4)
    for k in ('QueueServer', 'LossQueue') for mo in ('n', 't', 'nD', 'nA')
], covers=['n events', 't events', 'nD departures', 'nA arrivals'])

OTHER = ('InfoQueue', 'ResourceQueue')


def others(fn, **k):
    """The same histories for the queues that extend LossQueue."""
    return lambda tier: [J(Q + fn, '%s-%s%s' % (kind, fn, '-' + str(k['mode']) if 'mode' in k else ''), kind=kind,
                           **dict(k, **({'n': k['n'] + 2} if tier == 'thorough' and 'n' in k else {}))) for kind in OTHER]


def also(cid, *fs):
    first = CHECKS[cid]['jobs']
    CHECKS[cid]['jobs'] = lambda tier: first(tier) + [j for f in fs for j in f(tier)]


for cid in ('C01', 'C02', 'C03', 'C04'):
    also(cid, others('events', n=5, arrivals=4, smax=2))
also('C01', others('servers_change', n=5, changes=1, smax=2, inf=False))
also('C02', others('delays', n=5, ndelay=1, arrivals=3))
also('C03', others('servers_change', n=5, changes=1, smax=2, inf=False), others('delays', n=5, ndelay=1, arrivals=3))
also('C04', others('servers_change', n=5, changes=1, smax=2, inf=False))
also('C05', others('control', n=4, toggles=2))
also('C06', others('data_log', n=5, arrivals=4), others('data_log', n=4, arrivals=3, toggles=2))
also('C07', *[others('stopping', most=3, arrivals=3, mode=mo) for mo in ('n', 't', 'nD', 'nA')])
also('C07', lambda tier: [J(Q + 'stopping', 'inactive-%s-%s' % (k, mo), kind=k, mode=mo, warm=w, most=3, arrivals=3)
               for k, mo, w in [('LossQueue', 'nD', 0), ('QueueServer', 'nD', 1), ('LossQueue', 't', 1), ('QueueServer', 'n', 0), ('LossQueue', 'nA', 1)]])



def crowd(tier, kind, **k):
    d = 1 if tier == 'thorough' else 0
    k = dict(dict(kind=kind, n=2 + d, most=1 + d), **k)
    return J(Q + 'crowded', 'crowd-%s-%d' % (kind, k.get('seed', 0)), **k)


also('C01', lambda t: [crowd(t, 'QueueServer'), crowd(t, 'LossQueue', qbuffer=3), crowd(t, 'InfoQueue', qbuffer=2, seed=1),
                       crowd(t, 'ResourceQueue', servers=3, qbuffer=4, seed=2)])
also('C02', lambda t: [crowd(t, 'QueueServer', seed=1), crowd(t, 'LossQueue', qbuffer=3, seed=2), crowd(t, 'QueueServer', servers=3, warm=40, seed=4, n=3, most=0)])
also('C03', lambda t: [crowd(t, 'QueueServer', seed=2), crowd(t, 'LossQueue', qbuffer=5, seed=3), crowd(t, 'QueueServer', servers=6, warm=40, seed=5)])
also('C04', lambda t: [crowd(t, 'LossQueue', qbuffer=4, seed=4), crowd(t, 'LossQueue', servers=2, qbuffer=8, seed=5, warm=40, n=3, most=0),
                       crowd(t, 'InfoQueue', qbuffer=3, seed=6)])
also('C05', lambda t: [crowd(t, 'QueueServer', seed=3, stop=True), crowd(t, 'LossQueue', qbuffer=2, seed=7, stop=True)])
also('C06', lambda t: [crowd(t, 'QueueServer', seed=6, collect=True), crowd(t, 'LossQueue', qbuffer=3, seed=8, collect=True),
                       crowd(t, 'LossQueue', servers=2, qbuffer=5, warm=40, seed=9, collect=True, most=0, n=3),
                       crowd(t, 'QueueServer', servers=2, warm=40, seed=11, collect=True, most=0, n=3, reuse=True, svc=40),
                       crowd(t, 'LossQueue', servers=2, qbuffer=12, warm=40, seed=12, collect=True, most=0, n=2, reuse=True, svc=40)])

N = 'h_network:'


def hist(topo, n, **k):
    name = k.pop('name', None) or '%s-%s' % (topo, k.get('blocking', 'BAS'))
    return J(N + 'history', name, topo=topo, n=n, **k)


def hists(*specs):
    """'topo:n' or 'topo:n:arrivals', then options."""
    out = []
    for sp, k in specs:
        topo, n, a = (sp + ':2').split(':')[:3]
        a = tuple(int(x) for x in a.split(','))
        out.append(hist(topo, int(n), arrivals=a if len(a) > 1 else a[0], name=sp + ''.join(' %s=%s' % x for x in sorted(k.items())), **k))
    return out


RS = {'blocking': 'RS'}
AGAIN = {'again': True}
MOVIE = {'animated': True}


def C10(tier):
    if tier == 'thorough':
        return hists(('tandem:9:4', {}), ('tandem:7:3', dict(smax=2)), ('merge:6', {}), ('branch:7', {}), ('cycle:6', {}),
                     ('cycle:8:1', {}), ('loop:8:3', {}), ('feedback:5', {}), ('feedback:7:1', {}), ('tandem:9:3', RS),
                     ('merge:6', RS), ('cycle:6', RS), ('feedback:5', RS), ('tandem:7', AGAIN), ('merge:5', AGAIN),
                     ('cycle:5', AGAIN), ('feedback:5:1', AGAIN), ('tandem:7', MOVIE), ('cycle:5', MOVIE), ('feedback:5:1', MOVIE))
    return hists(('tandem:8:3', {}), ('tandem:6', dict(smax=2)), ('merge:6:2,1', {}), ('branch:5', {}), ('cycle:6:2,1', {}),
                 ('loop:6', {}), ('feedback:5:1', {}), ('tandem:7', RS), ('tandem:5', AGAIN), ('cycle:4:1', AGAIN),
                 ('cycle:3:1,3', {}), ('tandem:5', MOVIE), ('cycle:3:1,3', MOVIE))


def C11(tier):
    if tier == 'thorough':
        return C10(tier)
    return hists(('tandem:8:3', {}), ('merge:6:2,1', {}), ('branch:5', {}), ('cycle:6:1', {}), ('loop:6', {}),
                 ('feedback:5:1', {}), ('tandem:7', RS), ('cycle:5:1', RS), ('tandem:5', AGAIN), ('merge:4:2,1', AGAIN), ('tandem:5', MOVIE))


def C12(tier):
    if tier == 'thorough':
        return hists(('tandem:9:4', {}), ('tandem:9:3', RS), ('merge:6', {}), ('merge:6', RS), ('cycle:6', {}),
                     ('cycle:6', RS), ('loop:8:3', {}), ('tandem:8:3', dict(smax=2)), ('tandem:7:3', dict(smax=2, **RS)),
                     ('feedback:5', {}), ('feedback:5', RS), ('tandem:8', MOVIE), ('cycle:5', MOVIE))
    return hists(('tandem:8:3', {}), ('tandem:7', RS), ('merge:6:2,1', {}), ('cycle:6:2,1', {}), ('cycle:6:1', RS), ('cycle:4:1', MOVIE),
                 ('loop:6', RS), ('tandem:7:3', dict(smax=2, bmax=0)))


def C13(tier):
    t = tier == 'thorough'
    d = 1 if t else 0
    M = dict(max_agents=3, again=True)
    return hists(('tandem:%d' % (6 + d), M), ('merge:%d' % (4 + d), M), ('branch:%d' % (4 + d), M),
                 ('cycle:%d' % (4 + d), dict(max_agents=3)), ('cycle:%d:1,3' % (4 + d), dict(max_agents=3, mlo=3)), ('loop:%d' % (5 + d), M),
                 ('cycle:%d:1' % (4 + d), dict(max_agents=4, again=True)), ('feedback:%d:1' % (4 + d), M),
                 ('tandem:%d' % (4 + d), dict(max_agents=2, animated=True)), ('cycle:%d:1' % (3 + d), dict(max_agents=3, animated=True)))


def busy(tier, topo, n, name='', **k):
    """A network that a long fixed run has filled first; the last events are symbolic."""
    k = dict(dict(warm=25, arrivals=40, room=(2, 2)), **k)
    return hist(topo, n + (tier == 'thorough'), name='busy-%s-%s%s' % (topo, k.get('blocking', 'BAS'), name), **k)


def filled(tier):
    return [busy(tier, 'tandem', 5, warm=20, svc=6), busy(tier, 'tandem', 3, '-RS', warm=30, blocking='RS', room=(2, 3), seed=1),
            busy(tier, 'cycle', 6, warm=30, arrivals=20, room=(2, 3)), busy(tier, 'merge', 4, warm=20, room=(1, 2)),
            busy(tier, 'cycle', 4, '-RS', warm=30, blocking='RS', room=(2, 3)), busy(tier, 'feedback', 4, warm=20, room=(2, 1)),
            busy(tier, 'merge', 3, '-RS', warm=30, blocking='RS', room=(2, 1)), busy(tier, 'branch', 2),
            busy(tier, 'feedback', 2, '-RS', warm=20, blocking='RS', room=(2, 1), seed=3),
            busy(tier, 'loop', 4, warm=30, room=(2, 3), svc=8)]


CHECKS['C07']['jobs'] = (lambda f: lambda tier: f(tier) + [
    J(N + 'stopping', 'net-%s-%s' % (topo, mo), topo=topo, mode=mo, most=3 if tier == 'quick' else 5, arrivals=2 if topo == 'tandem' else (2, 1))
    for topo in ('tandem', 'merge') for mo in ('n', 't')] + [
    J(N + 'stopping', 'net-idle-%s-%s' % (topo, mo), topo=topo, mode=mo, warm=w, most=6, arrivals=1)
    for topo, mo, w in [('tandem', 't', 0), ('tandem', 'n', 2), ('loop', 't', 1), ('merge', 't', 3)]])(CHECKS['C07']['jobs'])
CHECKS['C10'] = dict(jobs=C10, covers=['moved', 'left the network', 'turned away from outside', 'blocked BAS', 'initialized again'])
CHECKS['C11'] = dict(jobs=C11, covers=['moved', 'left the network', 'nothing scheduled', 'blocked BAS', 'blocked RS'])
CHECKS['C12'] = dict(jobs=C12, covers=['turned away from outside', 'blocked BAS', 'blocked RS', 'moved'])
CHECKS['C13'] = dict(jobs=C13, covers=['reached the maximum', 'stopped at the maximum', 'initialized again'])

for cid in ('C10', 'C11', 'C12'):
    also(cid, filled)
also('C07', lambda tier: [J(Q + 'stopping', 'busy-%s-%s' % (k, mo), kind=k, room=r, mode=mo, warm=w, most=4 if tier == 'thorough' else 3,
                            arrivals=40, given=sd)
                          for k, r, w, sd in [('QueueServer', (3, 0), 20, 0), ('LossQueue', (2, 3), 30, 1)] for mo in ('n', 't', 'nD', 'nA')] +
     [J(N + 'stopping', 'busy-net-%s-%s' % (tp, mo), topo=tp, mode=mo, warm=0, most=4 if tier == 'thorough' else 3, arrivals=30, servers=2,
        buffer=2, run=(('warm', 20),)) for tp in ('tandem', 'merge', 'cycle', 'feedback') for mo in ('n', 't')])

M = 'h_misc:'


def C14(tier):
    t = tier == 'thorough'
    js = [J(M + 'routing', 'route-%d-%s-%s%s' % (n, how, via, '-loop' if loop else ''), n=n, how=how, via=via, loop=loop)
          for n, how, via, loop in [(2, 'near', 'matrix', False), (3, 'near', 'dict', True), (4, 'near', 'rdict', True),
                                    (4, 'free', 'matrix', False), (5, 'free', 'rdict', False)]
          + ([(6, 'near', 'matrix', True), (7, 'near', 'rdict', False)] if t else [])]
    js += [J(M + 'routing', 'route-%s' % a, n=3, how='near', via='rdict', loop=True, agent=a)
           for a in ('ResourceAgent', 'InfoAgent')]
    js += [J(M + 'choice_fp', 'choice-doubles-%d' % n, n=n) for n in ((2, 3) if t else (2,))]
    js += [J(M + 'greedy', 'greedy-%d-%d' % (n, most), n=n, most=most, loop=loop)
           for n, most, loop in [(2, 4, False), (3, 3, True), (4, 2, False)] + ([(4, 4, True), (5, 3, False)] if t else [])]
    return js


CHECKS['C14'] = dict(jobs=C14, covers=['routed', 'routed to the last', 'greedy', 'chosen'],
                     note='Routing on n out-edges in exact reals; the choice itself also on IEEE doubles (z3 floating point).')


def C21(tier):
    if tier == 'thorough':
        return [J(M + 'unions', 'unions-4-4', n=4, ops=4), J(M + 'unions', 'merges-7-5', n=7, ops=5, only=True),
                J(M + 'unions', 'merges-6-6', n=6, ops=6, only=True), J(M + 'unions', 'names-5-3', n=5, ops=3, strings=True)]
    return [J(M + 'unions', 'unions-4-3', n=4, ops=3), J(M + 'unions', 'merges-6-4', n=6, ops=4, only=True),
            J(M + 'unions', 'merges-4-5', n=4, ops=5, only=True), J(M + 'unions', 'names-4-3', n=4, ops=3, strings=True)]


def many(cid, *specs):
    """Jobs that a given sequence of operations has prepared: (harness, quick parameters, thorough ones)."""
    also(cid, lambda tier: [J(M + fn, '%s-%s' % (fn, '-'.join('%s%s' % x for x in sorted(k.items()))), **k)
                            for fn, q, th in specs for k in [dict(q, **(th if tier == 'thorough' else {}))]])


CHECKS['C21'] = dict(jobs=C21, covers=['repeated union', 'done'])


many('C21', ('unions', dict(n=7, pre=5, ops=2), dict(n=9, pre=6)), ('unions', dict(n=12, pre=10, ops=1, seed=1), dict(n=16)),
     ('unions', dict(n=16, pre=12, ops=1, seed=3), dict(n=24)), ('unions', dict(n=8, pre=4, ops=2, seed=2, only=True), dict(n=10)))
many('C14', ('routing', dict(n=9, how='given'), {}), ('routing', dict(n=12, how='some', via='rdict'), {}),
     ('routing', dict(n=16, how='given', via='rdict', loop=True), {}), ('routing', dict(n=10, how='some', via='dict'), {}),
     ('greedy', dict(n=7, most=1), dict(n=8)), ('greedy', dict(n=5, most=2), dict(n=6)))


def C22(tier):
    t = tier == 'thorough'
    return [J(M + 'heap', 'heap-2', nodes=2, init=2, ops=4 if t else 3),
            J(M + 'heap', 'heap-3', nodes=3, init=3 if t else 1, ops=3),
            J(M + 'heap', 'heap-3b', nodes=3, init=2, ops=3 if t else 2),
            J(M + 'heap', 'heap-grow', nodes=4, init=1 if t else 0, ops=4),
            J(M + 'heap_sort', 'sort-built', n=7 if t else 6), J(M + 'heap_sort', 'sort-pushed', n=7 if t else 6, push=True)]


CHECKS['C22'] = dict(jobs=C22, covers=['an entry is superseded', 'popped empty', 'drained'])
many('C22', ('heap', dict(nodes=8, pre=12, init=0, ops=2), dict(ops=3)), ('heap', dict(nodes=8, pre=20, init=0, ops=2, seed=1), {}),
     ('heap', dict(nodes=6, pre=12, init=0, ops=2, seed=2), dict(ops=3)), ('heap', dict(nodes=12, pre=24, init=0, ops=1, seed=3), dict(ops=2)))
CHECKS['C23'] = dict(jobs=lambda tier: [J(M + 'thinning', 'thinning-' + m, mode=m, most=5 if tier == 'thorough' else 4)
                                        for m in ('free', 'max', 'zero', 'unit')],
                     covers=['accepted', 'accepted after a rejection'])

R = 'h_routes:'


def C15(tier):
    t = tier == 'thorough'
    o = 3 if t else 2
    js = [J(R + 'transitions', '%s-%s%s' % (topo, via, '-twice' if tw else ''), topo=topo, via=via, orders=oo, twice=tw)
          for topo, via, oo, tw in [('mixed', 'matrix', 3, False), ('term', 'matrix', 3, False), ('early', 'matrix', o, t),
                                    ('mixed', 'dict', o, False), ('term', 'dict', o, False), ('wide', 'matrix', o, False),
                                    ('early', 'matrix', 1 if not t else 3, True), ('one', 'dict', 1, True)]
          + ([('wide', 'dict', 3, False), ('early', 'dict', 3, True), ('mixed', 'dict', 3, True)] if t else [])]
    js += [J(R + 'transitions', 'big-%s' % via, topo='big', via=via, orders=o) for via, o in (('matrix', 3), ('dict', 3 if t else 1))]
    js += [J(R + 'refused', 'refused-' + topo, topo=topo) for topo in (('mixed', 'term', 'wide') if t else ('mixed',))]
    return js


CHECKS['C15'] = dict(jobs=C15, covers=['accepted', 'rejected', 'refused', 'targets left out'])
CHECKS['C19'] = dict(jobs=lambda tier: [
    J(R + 'generated', '%s-%d%s' % (topo, kind, '-seed' if sd else ''), topo=topo, kind=kind, seed=sd,
      orders=3 if tier == 'thorough' else o)
    for topo, kind, sd, o in [('mixed', 0, False, 2), ('term', 1, True, 2), ('early', 0, True, 3), ('wide', 2, False, 1),
                              ('mixed', 2, True, 1), ('one', 1, False, 1), ('big', 0, False, 1)]], covers=['generated'])


def views(topo, n, **k):
    return J(N + 'data_views', '%s-%d%s' % (topo, n, ''.join(' %s=%s' % x for x in sorted(k.items()))), topo=topo, n=n, **k)


def C17(tier):
    if tier == 'thorough':
        return [views('tandem', 7, toggles=0, arrivals=4), views('feedback', 5, toggles=0, arrivals=2),
                views('branch', 6, toggles=0, arrivals=2), views('loop', 7, toggles=0, arrivals=2),
                views('cycle', 6, toggles=0, arrivals=2, blocking='RS'), views('tandem', 6, toggles=1),
                views('feedback', 4, toggles=1, arrivals=1), views('loop', 5, toggles=2, arrivals=1, bmax=0)]
    return [views('tandem', 6, toggles=0, arrivals=3), views('feedback', 4, toggles=0, arrivals=1),
            views('branch', 4, toggles=0), views('loop', 5, toggles=0), views('tandem', 4, toggles=1, bmax=0),
            views('feedback', 3, toggles=1, arrivals=1, bmax=0), views('loop', 4, toggles=2, arrivals=1, bmax=0)]


CHECKS['C17'] = dict(jobs=C17, covers=['data compared', 'an agent with several visits', 'collection stopped', 'data cleared',
                                       'turned away from outside', 'left the network'])

S = 'h_select:'
HOW = ('queues', 'edge', 'edge_type', 'all')


def C16(tier):
    tops = ('small', 'types', 'terms', 'one') if tier == 'thorough' else ('small',)
    js = []
    for tp in tops:
        js += [J(S + 'collecting', 'collect-%s-%s-%s' % (op, h, tp), topo=tp, how=h, op=op) for op in ('start', 'stop') for h in HOW]
        js += [J(S + 'data', 'data-%s-%s-%s' % (op, h, tp), topo=tp, how=h, op=op) for op in ('clear', 'queues', 'agents')
               for h in (HOW if tier == 'thorough' or op == 'clear' else HOW[1:])]
        js += [J(S + 'initialize', 'init-%s-%s' % (h, tp), topo=tp, how=h) for h in HOW[:3] + ('nActive',)]
        js += [J(S + 'clearing', 'clear-' + tp, topo=tp)]
    for h in HOW[:3]:
        js += [J(S + 'collecting', 'collect-%s-%s-big' % (op, h), topo='big', how=h, op=op) for op in ('start', 'stop')]
        js += [J(S + 'data', 'data-%s-%s-big' % (op, h), topo='big', how=h, op=op) for op in ('clear', 'queues', 'agents')]
        js += [J(S + 'initialize', 'init-%s-big' % h, topo='big', how=h)]
    if tier == 'quick':
        js += [J(S + 'initialize', 'init-%s-types' % h, topo='types', how=h) for h in ('edge_type', 'nActive')]
        js += [J(S + 'initialize', 'init-%s-terms' % h, topo='terms', how=h) for h in HOW[:3] + ('nActive',)]
        js += [J(S + 'collecting', 'collect-start-edge_type-types', topo='types', how='edge_type', op='start')]
    return js


CHECKS['C16'] = dict(jobs=C16, covers=['selected some', 'initialized', 'refused', 'some at random', 'cleared'])

T = 'h_twin:'


def C08(tier):
    t = tier == 'thorough'
    kinds = ('QueueServer', 'LossQueue', 'ResourceQueue', 'InfoQueue')
    js = [J(T + 'queue_twin', '%s-copy' % k, kind=k, mode='copy', warm=4 if t else 3, n=4 if t else 3, arrivals=4 if t else 3)
          for k in kinds]
    js += [J(T + 'queue_twin', '%s-clear' % k, kind=k, mode='clear', warm=3 if t else 2, n=3 if t else 2, arrivals=3,
             smax=2 if k == 'QueueServer' else 1) for k in kinds]
    js += [J(T + 'queue_twin', '%s-%s-limits' % (k, m), kind=k, mode=m, warm=3 if t else 2, n=2, arrivals=2, smax=1, limits=True)
           for k, m in (('QueueServer', 'copy'), ('LossQueue', 'clear'))]
    for topo, cp, cl in [('tandem', (5, 4, 3), (3, 3, 2)), ('branch', (4, 4, 2), (4, 4, 1)), ('resource', (5, 4, 2), (4, 4, 2)),
                         ('info', (4, 3, 2), (4, 3, 2)), ('merge', (3, 3, 1), (2, 2, 1))]:
        if not t:
            cp = {'tandem': (4, 3, 2), 'branch': (3, 3, 1), 'resource': (4, 3, 2), 'info': (3, 2, 2), 'merge': (2, 2, 1)}[topo]
            cl = {'tandem': (3, 3, 2), 'branch': (3, 3, 1), 'resource': (4, 3, 2), 'info': (3, 3, 1), 'merge': (2, 1, 1)}[topo]
        for m, (w, n, a) in (('copy', cp), ('clear', cl)):
            js.append(J(T + 'net_twin', 'net-%s-%s' % (topo, m), topo=topo, mode=m, warm=w, n=n, arrivals=a,
                        bmax=1 if t or topo != 'merge' else 0))
    js += [J(T + 'net_twin', 'net-tandem-%s-RS' % m, topo='tandem', mode=m, warm=3, n=3, arrivals=2, blocking='RS', bmax=0,
             most=2) for m in ('copy', 'clear')]
    return js


def long_before(tier):
    """Copied or cleared after a long given run."""
    d = 1 if tier == 'thorough' else 0
    return [J(T + 'queue_twin', 'long-%s-%s' % (k, m), kind=k, room=r, mode=m, warm=24, n=2 + d, arrivals=30, given=0)
            for k, r in [('QueueServer', (2, 0)), ('LossQueue', (2, 3)), ('InfoQueue', (2, 3)), ('ResourceQueue', (9, 3))]
            for m in ('copy', 'clear')] + \
        [J(T + 'net_twin', 'long-%s-%s-%s' % (tp, m, bl), topo=tp, room=r, mode=m, warm=24, n=2 + d, arrivals=30, given=0, blocking=bl)
         for tp, r, bl in [('tandem', (2, 2), 'BAS'), ('branch', (2, 2), 'BAS'), ('merge', (1, 2), 'BAS'), ('info', (2, 3), 'BAS'),
                           ('resource', (6, 3), 'BAS'), ('tandem', (1, 2), 'RS')]
         for m in ('copy', 'clear') if (tp, m) != ('merge', 'clear')]


also('C13', lambda tier: [busy(tier, tp, n, '-most%d' % mx, warm=w, room=r, max_agents=mx, mlo=mx, gap=1, arrivals=a, **k)
                          for tp, n, mx, w, r, a, k in [('cycle', 3, 8, 20, (2, 3), 20, {}), ('branch', 2, 6, 25, (2, 2), 40, dict(svc=8)),
                                                        ('feedback', 2, 9, 20, (2, 3), 30, {}),
                                                        ('loop', 3, 7, 20, (2, 3), 30, dict(again=True)),
                                                        ('tandem', 3, 12, 20, (2, 2), 40, dict(svc=8))]])
CHECKS['C08'] = dict(jobs=C08, covers=['copied', 'cleared', 'network copied', 'network cleared'])

also('C08', long_before)
G = 'h_graph:'


def C18(tier):
    t = tier == 'thorough'
    n = 4 if t else 3
    js = [J(G + 'build', 'build-%s-%d-%d' % (f, m, a), n=m, form=f, adjust=a)
          for f, m, a in [('lists', 3, 1), ('lists', n, 2), ('dicts', 3, 1), ('dicts', n, 2), ('matrix', n, 1), ('matrix', 3, 2)]]
    js += [J(G + 'build', 'build-dicts-both', n=2, form='dicts', adjust=1, typed='both'),
           J(G + 'build', 'build-one', n=1, form='lists', adjust=1), J(G + 'refused'), J(G + 'lengths', n=3)]
    js += [J(G + 'graph', 'graph-%d-%d' % (m, o), n=m, ops=o) for m, o in ([(2, 2), (3, 1)] if t else [(2, 1), (1, 2)])]
    js += [J(G + 'graph', 'graph-add-%d-%d' % (m, o), n=m, ops=o, what=(3,)) for m, o in ([(2, 4), (3, 2)] if t else [(2, 2)])]
    js += [J(G + 'prepared', 'prepared-%d-%s-%s' % (m, s, k), n=m, source=s, adjust=a, kinds=k)
           for m, s, a, k in [(1, 'digraph', True, (-1, 0, 1, 2)), (1, 'qdigraph', False, (0, 1)), (2, 'digraph', True, (-1, 0, 1, 2, 3)), (2, 'dict', True, (-1, 0, 3)), (2, 'qdigraph', False, (0, 1, 2)),
                              (2, 'undirected', True, (-1, 0, 1, 2)), (3, 'qdigraph', True, (-1, 2)), (3, 'digraph', False, (0, 1))]
           + ([(3, 'digraph', True, (-1, 1, 2)), (4, 'undirected', True, (-1, 3)), (3, 'dict', True, (-1, 0, 2)),
               (4, 'qdigraph', False, (0, 2))] if t else [])]
    # wide graphs: more than ten vertices and edges, all but two of them given
    js += [J(G + 'build', 'wide-build-%s-%d' % (f, a), n=12, form=f, adjust=a) for f, a in [('lists', 2), ('dicts', 1), ('matrix', 1)]]
    js += [J(G + 'lengths', 'wide-lengths', n=12), J(G + 'graph', 'wide-graph', n=12, ops=1)]
    js += [J(G + 'prepared', 'wide-prepared-%s' % s, n=12, source=s, adjust=a, kinds=k)
           for s, a, k in [('digraph', True, (1, 2, 0, 3)), ('dict', True, (-1, 3, 2)), ('undirected', True, (2, 1, 3)), ('qdigraph', False, (0, 1, 2))]]
    return js


CHECKS['C18'] = dict(jobs=C18, covers=['built', 'terminal vertex', 'refused', 'edge added', 'edges of a type', 'graph', 'terminal',
                                       'network', 'nothing', 'lengths'])

X = 'h_gen:'


def C20(tier):
    t = tier == 'thorough'
    js = [J(X + 'minimal', 'minimal-%d-%s' % (n, m), n=n, mode=m)
          for n, m in [(1, 'plane'), (2, 'plane'), (3, 'plane'), (4, 'line'), (6, 'given'), (8, 'given2')] +
          ([(4, 'plane'), (10, 'given3'), (12, 'given4')] if t else [])]
    js += [J(X + 'minimal', 'random-%d-%s' % (n, m), n=n, mode=m, kind='random')
           for n, m in [(1, 'plane'), (3, 'line')] + ([(4, 'line'), (3, 'plane')] if t else [])]
    js += [J(X + 'random_types', 'types-small'), J(X + 'random_types', 'types-bad', topo='loops', valid=False),
           J(X + 'random_types', 'types-default', topo='noloops', default=True),
           J(X + 'random_types', 'types-default-loops', topo='loops', default=True),
           J(X + 'spread', 'spread', topo='four'), J(X + 'spread', 'spread-loops', topo='small', loops=True)]
    js += [J(X + 'rank_types', 'rank-%s-%s-%s' % x, topo=x[0], p2=x[1], p3=x[2])
           for x in [('small', 0.4, 0.4), ('four', 0.25, 0.5), ('four', 0.5, 0.25), ('noloops', 0.6, 0.4), ('loops', 0, 0.5),
                     ('small', 1, 0.7), ('noloops', 0.34, 0)] + ([('four', 0.3, 0.75), ('four', 0.25, 1)] if t else [])]
    js += [J(X + 'pagerank', 'pagerank-%d' % n, n=n) for n in ((2, 3, 4) if t else (2, 3, 4))]
    return js


CHECKS['C20'] = dict(jobs=C20, covers=['graph', 'random types', 'refused', 'spread', 'ranked', 'near', 'top', 'pagerank'],
                     note='Points of the plane in exact (nonlinear) reals; trigonometric functions are any value of their range.')

E = 'h_ext:'


def ext(fn, **k):
    return J(E + fn, ' '.join([fn] + ['%s=%s' % x for x in sorted(k.items())]), **k)


def C24(tier):
    if tier == 'thorough':
        return [ext('resource', n=7), ext('resource', n=6, smax=2), ext('resource', n=6, blocking='RS'),
                ext('resource', topo='pair', n=8, arrivals=(3, 1)), ext('resource', topo='through', n=12, arrivals=4),
                ext('resource', topo='self', n=12, arrivals=5, smax=2), ext('resource', topo='exit', n=10, arrivals=4),
                ext('resource_queue', n=7, changes=1), ext('resource_queue', n=6, changes=2, arrivals=3),
                ext('like_loss', kind='ResourceQueue', n=5, arrivals=4)]
    return [ext('resource', n=5), ext('resource', n=5, smax=2, arrivals=(2, 1)), ext('resource', n=5, blocking='RS'),
            ext('resource', topo='through', n=9, arrivals=3), ext('resource', topo='self', n=8, arrivals=3, smax=2),
            ext('resource', topo='exit', n=7, arrivals=3), ext('resource_queue', n=6), ext('resource_queue', n=5, anyset=True, changes=2, smax=1), ext('like_loss', kind='ResourceQueue', n=4, arrivals=3)]


for cid in ('C10', 'C11', 'C12'):
    also(cid, lambda tier: [ext('resource', topo='exit', n=8 if tier == 'thorough' else 6, arrivals=3),
                            ext('information', topo='imix', n=7 if tier == 'thorough' else 5, arrivals=2),
                            ext('information', n=5 if tier == 'thorough' else 4, bmax=1)])

also('C06', lambda tier: [ext('resource_queue', n=6 if tier == 'thorough' else 5, collect=True)])
def run(**k):
    return tuple(sorted(k.items()))


CHECKS['C24'] = dict(jobs=C24, covers=['takes a resource', 'returns a resource', 'no resource left', 'blocked BAS', 'servers added',
                                       'turned away from outside', 'given back', 'compared'])


def C25(tier):
    if tier == 'thorough':
        return [ext('information', n=6), ext('information', n=5, bmax=1), ext('information', topo='imix', n=9, arrivals=3, smax=2),
                ext('information', topo='iself', n=6), ext('information', n=5, bmax=1, blocking='RS'),
                ext('like_loss', n=5, arrivals=4), ext('information', n=6, arrivals=(2, 1), smax=2)]
    return [ext('information', n=5), ext('information', n=4, bmax=1), ext('information', topo='imix', n=7, arrivals=3),
            ext('information', topo='iself', n=5), ext('information', n=4, bmax=1, blocking='RS'), ext('like_loss', n=4, arrivals=3)]


also('C24', lambda tier: [ext('resource', topo=tp, n=n + (tier == 'thorough'), arrivals=30, room=room, blocking=bl, run=run(warm=w, seed=sd))
                          for tp, n, room, bl, w, sd in [('pair', 3, (6, 2), 'BAS', 30, 0), ('through', 3, (9, 2), 'BAS', 30, 1),
                                                         ('exit', 3, (12, 2), 'BAS', 20, 0), ('self', 5, (8, 2), 'BAS', 30, 0)]])
CHECKS['C25'] = dict(jobs=C25, covers=['moved', 'knows about another queue', 'blocked BAS', 'blocked RS', 'compared', 'changed'])

also('C25', lambda tier: [ext('information', topo=tp, n=n + (tier == 'thorough'), arrivals=30, room=room, blocking=bl, run=run(warm=20, seed=sd))
                          for tp, n, room, bl, sd in [('ipair', 4, (3, 4), 'BAS', 1), ('imix', 4, (3, 3), 'BAS', 2),
                                                      ('iself', 3, (2, 3), 'BAS', 0), ('imix', 4, (1, 2), 'RS', 0)]])
also('C17', lambda tier: [views(tp, n + (tier == 'thorough'), arrivals=30, room=room, blocking=bl, toggles=tg, run=run(warm=20, seed=sd))
                          for tp, n, room, bl, tg, sd in [('tandem', 2, (2, 2), 'BAS', 1, 0), ('feedback', 2, (2, 2), 'BAS', 1, 0),
                                                          ('loop', 2, (2, 2), 'BAS', 1, 0), ('cycle', 3, (2, 2), 'RS', 0, 0)]])

D = 'h_draw:'


def drw(fn, **k):
    return J(D + fn, ' '.join([fn] + ['%s=%s' % x for x in sorted(k.items())]), **k)


def C26(tier):
    t = tier == 'thorough'
    js = [drw('color_of', kind=k, loop=lo, servers=s, sens=z) for k in ('QueueServer', 'LossQueue', 'InfoQueue', 'NullQueue', 'ResourceQueue')
          for lo, s, z in ((False, 1, 2), (True, 3, 1))]
    js += [drw('loads', topo='mixed'), drw('loads', topo='into', colored=True, servers=2), drw('loads', topo='exit', sens=1),
           drw('loads', topo='loop', colored=True), drw('loads', topo='tandem')]
    js += [drw('any_network', n=2, op=o) for o in (0, 1)]
    js += [drw('any_network', n=1, kinds=(1,), op=o, lone=True) for o in (0, 1)]
    js += [drw('any_network', n=3, kinds=(0, 1), op=o) for o in (0, 1)] if t else [drw('any_network', n=3, kinds=(1,), op=0)]
    js += [drw('any_network', n=12, kinds=(1, 0, 2), op=o) for o in (0, 1)]
    for topo in ('tandem', 'mixed', 'into', 'rpair', 'loop', 'exit'):
        js.append(drw('drawings', topo=topo, n=5 if t and topo not in ('into', 'exit') else 3))
    js += [drw('animation', topo='tandem', n=5, bmax=1), drw('animation', topo='mixed', n=4 if t else 3, bmax=1 if t else 0),
           drw('animation', topo='into', n=4 if t else 3, arrivals=3 if t else 2, bmax=0),
           drw('animation', topo='rpair', n=5 if t else 4, bmax=0), drw('animation', topo='loop', n=4 if t else 3),
           drw('animation', topo='exit', n=4 if t else 3, bmax=0, arrivals=2),
           drw('animation', topo='mixed', n=3, servers=2, bmax=0, timed=True, arrivals=3 if t else 2),
           drw('animation', topo='loop', n=3, warm=2, arrivals=2, save=True, blocking='RS')]
    return js


CHECKS['C26'] = dict(jobs=C26, covers=['animated', 'drawn', 'shown', 'reset', 'loads', 'colours of a queue', 'network drawn'],
                     note='Drawing is decided up to what is handed to matplotlib; a recorder stands in for matplotlib.')


def C27(tier):
    t = tier == 'thorough'
    js = [drw('any_graph', n=n, how=h) for n in (2, 3, 12) for h in ('set', 'pos', 'none')]
    js += [drw('any_network', n=12, kinds=(1, 2), op=0)]
    js += [drw('drawings', topo=topo, n=2) for topo in ('mixed', 'exit', 'rpair')]
    js += [drw('any_network', n=2, kinds=(0, 1), most=1, op=0), drw('animation', topo='mixed', n=1, bmax=0, arrivals=1)]
    return js + ([drw('any_graph', n=4, how='set')] if t else [])


CHECKS['C27'] = dict(jobs=C27, covers=['graph drawn', 'saved', 'drawn', 'animated', 'network drawn'],
                     note='Drawing is decided up to what is handed to matplotlib; a recorder stands in for matplotlib.')
