"""Writes properties.jsonl (the statements live here, one P(...) each)."""
import json, os
OUT = []
QS, QX, AG = 'queueing_tool/queues/queue_servers.py', 'queueing_tool/queues/queue_extentions.py', 'queueing_tool/queues/agents.py'
NET, PQ, CH = 'queueing_tool/network/queue_network.py', 'queueing_tool/network/priority_queue.pyx', 'queueing_tool/queues/choice.pyx'
GW, GG, GP, GF = ['queueing_tool/graph/graph_%s.py' % x for x in ('wrapper', 'generation', 'preparation', 'functions')]
PW, UF = 'queueing_tool/graph/_pairwise.pyx', 'queueing_tool/union_find.py'


def P(id, title, statement, over, text, why, files, mech, observe=()):
    OUT.append({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files,
                            'mechanism': [{'name': n, 'where': w} for n, w in mech],
                            'observe_at': list(observe), 'hook_needed': None}})


P('C01', 'A queue conserves agents and its counters are exact',
  'Between any two events of a queue every agent that was ever created or handed to it is in exactly one place: not yet arrived, blocked, waiting, in service, or departed. Each event moves exactly one agent (one arrival or one departure; a departure returns that agent) and the published counters - arrivals, departures, blocked, number in system, number waiting - equal the true counts. Agent ids are unique and carry the index of the queue that created them.',
  ['schedules', 'inputs', 'histories'],
  'for every arrival/service time sequence (ties included), server count and interleaving of events, server changes, activation and deactivation',
  'The tests run one seeded Poisson stream per queue and compare a total at the end; ties, zero-length services, infinite server counts and control calls between events are never tried together.',
  [QS, AG], [('next_event, _add_arrival and the two heaps of a queue', QS + ':QueueServer.next_event'), ('counters', QS + ':QueueServer.num_arrivals, num_departures, num_system, number_queued')],
  ['next_event() return value', 'Agent.queue_action', 'counters'])
P('C02', 'A queue processes events in time order on a monotone clock',
  'The next event of a queue is always the earliest scheduled arrival or service completion, and the announced time and kind of the next event are those of the event that then happens. The clock of the queue equals the time of the last event and never moves backwards; with nothing scheduled no event happens and the clock stands still.',
  ['schedules', 'inputs', 'histories'],
  'for every arrival/service time sequence, delay and control history, any number of servers, ties included',
  'Unit tests look at one sampled trajectory; the order of the heaps depends on every relative order of the event times.',
  [QS], [('heap-ordered arrivals and departures, _time', QS + ':QueueServer.next_event, next_event_description, delay_service')],
  ['time', 'current_time', 'next_event_description()'])
P('C03', 'Service is FIFO, work conserving and as long as the service time says',
  'Agents enter service in order of arrival, never more at once than there are servers, and no server idles while an agent waits - also right after the number of servers is raised or lowered. The service time is drawn when service starts, and the agent departs exactly at that time unless its service is delayed, which moves only the next departure.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every arrival/service sequence, 1..n or infinitely many servers, any interleaving of events, changes of the number of servers and delays',
  'Tests check a sampled data log of a fixed server count for sorted service times; changing servers with agents waiting or in service and delaying a service are each called once.',
  [QS], [('set_num_servers, next_event (start of service), delay_service', QS + ':QueueServer')],
  ['service_f calls', 'Agent.queue_action(queue, 1)', 'departures'])
P('C04', 'A loss queue blocks exactly when it is full',
  'A queue with finite capacity admits an arrival exactly when fewer agents than servers plus buffer places are present, and otherwise blocks it: the agent is told once, the blocked counter goes up by one, and nobody in the system is disturbed. It reports being full in exactly those states; a queue without finite capacity never blocks.',
  ['schedules', 'inputs', 'configurations'],
  'for every arrival/service sequence, number of servers, buffer size and change of the number of servers',
  'Tests compare the blocked fraction of one run with the Erlang formula; one wrong admission is inside the tolerance.',
  [QS], [('LossQueue.next_event, at_capacity', QS + ':LossQueue')], ['num_blocked', 'at_capacity()', 'Agent.add_loss'])
P('C05', 'External arrivals obey activation, the arrival cap and the cut-off time',
  'An active queue always has its next external arrival scheduled, created by consulting the arrival function with the current time; an inactive one creates none. The queue never creates more external arrivals than its cap, none after its cut-off time, and it becomes inactive when either is reached; activating it again never breaks these limits.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every arrival function, cap, cut-off time and sequence of activations, deactivations and events',
  'Tests use one cap and one cut-off with one seed and never toggle a running queue.',
  [QS], [('_add_arrival, set_active, set_inactive, active_cap, deactive_t', QS + ':QueueServer')], ['arrival_f calls', 'AgentFactory calls', 'active'])
P('C06', 'The data log records every visit exactly as it happened',
  'With data collection on, the data returned by a queue has one row per arrival, sorted by arrival time, with the true arrival, service start and departure time, the number of agents waiting and present on arrival and the edge index; not-yet-started parts are zero and a blocked visit has zero service and departure. Arrivals while collection is off leave no row.',
  ['schedules', 'inputs', 'histories'],
  'for every arrival/service sequence and every toggling of data collection between events',
  'Tests check relations between columns on a few seeds, not that the rows are the visits that took place.',
  [QS], [('data bookkeeping in next_event, fetch_data', QS + ':QueueServer.next_event, fetch_data; LossQueue.next_event')], ['fetch_data()'])
P('C07', 'Every simulate() stopping rule stops exactly where documented',
  'Simulating n events processes exactly n (fewer only if nothing is left to happen), simulating for a length of time stops with the first event at or past that time, and simulating a number of arrivals or departures stops with the last of them. This holds for a single queue and, for events and time, for the network.',
  ['schedules', 'inputs'],
  'for every stopping value, starting state and event sequence',
  'Tests call simulate with a few large numbers on infinite streams and never near the boundary or on a stream that dries up.',
  [QS, NET], [('QueueServer.simulate', QS), ('QueueNetwork.simulate', NET)], ['num_events', 'current_time', 'num_departures', 'num_arrivals'])
P('C08', 'clear() is a fresh start and copy() is an independent equal twin',
  'After clearing, a queue or network behaves, event for event, like a newly built one given the same arrival, service and routing decisions. A copy of a queue or network has the same observable state, continues exactly as the original would given the same decisions (events of several queues at one instant may come in another order), and nothing done to either one shows in the other.',
  ['schedules', 'inputs', 'histories'],
  'for every history before clearing or copying and every history after it',
  'Tests compare a few attributes right after clear() or copy() and not what happens next.',
  [QS, QX, NET], [('clear, __deepcopy__', QS), ('clear, copy', NET)], ['counters, data, event sequence of both objects'])
P('C10', 'A network conserves agents and its per-queue counts are true',
  'Every agent that leaves a queue for another one arrives at that queue at the same instant, exactly once, and is in exactly one queue afterwards; agents enter only as external arrivals of active queues and leave only into terminal queues or by being blocked on entry from outside. The per-queue agent counts of the network equal the number of agents in or scheduled for each queue after every event.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every small network topology, queue types, blocking mode, routing decisions and arrival/service sequences',
  'Tests sample one random graph and compare totals.',
  [NET, QS], [('_simulate_next_event: departure, routing, arrival', NET + ':QueueNetwork._simulate_next_event')], ['num_agents', 'queue counters', 'Agent.queue_action'])
P('C11', 'The network executes all queues in one global time order',
  'Each network event is the earliest event over all its queues; the clock equals that time, never decreases, and the announced next time, kind and queue are those of the event that follows. The event counter grows by exactly one per event that really happens, and nothing happens or is counted when no queue has an event scheduled. (Of events announced for the same instant at different queues, any may come first.)',
  ['schedules', 'inputs', 'histories'],
  'for every interleaving of arrivals, departures, blocked moves and delays over a few queues, ties included',
  'The stale entries of the event heap matter only in particular orders of pushes and pops; tests check sortedness of keys on one seed.',
  [NET, PQ], [('_simulate_next_event and the event heap', NET), ('PriorityQueue.push/pop', PQ)], ['current_time', 'time', 'num_events', 'next_event_description()'])
P('C12', 'Blocking rules: a full target is never entered, and nobody is lost',
  'An agent leaving one queue never enters a different finite queue that is full: with blocking-after-service it holds its server and tries again right after the next departure of the full queue, with repetitive service it is served again where it is. The attempt is counted once at the agent and at the full queue, the agent keeps its place, and finite queues never hold more than servers plus buffer.',
  ['schedules', 'inputs', 'configurations'],
  'for every arrival/service sequence, buffer, server count, topology with loss queues and both blocking modes',
  'The tests count blocked agents in one seeded run of each mode.',
  [NET, QS], [('blocked branch of _simulate_next_event, delay_service', NET)], ['num_blocked', 'Agent.blocked', 'departure times'])
P('C13', 'The network never holds more agents than its maximum',
  'At every instant the number of agents in the network, counting those scheduled to arrive, is at most the maximum given, whichever queues are initialized and however agents move. Queues stop accepting external arrivals once it is reached.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every maximum, set of initialized queues, routing and arrival/service sequence',
  'One test samples one network with one maximum.',
  [NET], [('max_agents checks in initialize and _simulate_next_event', NET)], ['num_agents'])
P('C14', 'Agents follow exactly the routing probabilities they are given',
  'For any routing probabilities of a vertex and any random number, an agent chooses the out-edge whose cumulative-probability interval contains that number; it never takes an edge of probability zero, always takes an existing out-edge of the vertex it is leaving for, and a greedy agent takes the first of the out-edges with the fewest agents waiting.',
  ['inputs', 'configurations'],
  'for every probability vector of bounded length, every random number in [0,1), every set of queue lengths and every vertex of small graphs',
  'Sampling cannot see interval endpoints or a mistaken edge of small probability; tests use a tolerance on frequencies.',
  [CH, AG, NET], [('_choice, Agent.desired_destination, GreedyAgent.desired_destination', CH + '; ' + AG), ('out_edges order and _route_probs', NET)], ['edge chosen by desired_destination()'])
P('C15', 'Transition probabilities round-trip, and invalid ones are rejected whole',
  'What is set as routing probabilities, as a matrix or dictionary, is what is reported back and what routing uses, for every vertex given, leaving the others unchanged; the default is uniform over out-edges. Anything that is not a distribution at some vertex, has a wrong shape or unknown vertex is rejected with the documented error and leaves the probabilities as they were.',
  ['inputs', 'configurations'],
  'for every matrix or dictionary over small graphs, valid or invalid in any position',
  'Tests set a random matrix once and try one invalid example of each kind.',
  [NET], [('set_transitions, transitions', NET)], ['transitions()', 'exceptions'])
P('C16', 'Queue selections select exactly the queues named',
  'Every network operation taking queue indices, an edge or several edges, or edge types (one, or several in a list, tuple or array) acts on exactly the queues so named, on all when nothing is named, and on no others. Initialization never activates terminal queues and refuses when none remain; the operations are data collection on/off, clearing, reading data and initializing.',
  ['inputs', 'configurations'],
  'for every small graph with any edge types and every selection argument of the documented forms',
  'Tests use one example per argument form.',
  [NET], [('_get_queues and its callers', NET)], ['collect_data', 'data', 'active', 'get_queue_data()'])
P('C17', 'Network data views contain every recorded visit once, correctly labelled',
  'The queue view lists each recorded visit of the selected queues exactly once with the right queue index; the agent view holds the same visits grouped by agent id in order of arrival. Selecting, stopping or clearing data affects only the selected queues.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every history of a small network with agents visiting several queues and any selection',
  'Tests check shapes and sortedness on a seed.',
  [NET, QS], [('get_queue_data, get_agent_data, clear_data', NET)], ['get_queue_data()', 'get_agent_data()'])
P('C18', 'Graph construction keeps vertices, edges, types and attributes consistent',
  'A network graph built from an adjacency list or graph has exactly the given vertices and edges with the given types (default type 1; terminal vertices are made terminal or given a terminal loop exactly as the adjustment mode says), consecutive edge indices, and attributes that read back for the edge they were set on. The conversion back to a dictionary returns the same adjacency and types, and the caller\'s arguments are not changed.',
  ['inputs', 'configurations'],
  'for every directed graph on a few vertices (isolated vertices, loops, missing dictionary keys) with any edge types and adjustment mode',
  'Tests try three or four hand-written adjacency lists.',
  [GW, GP], [('adjacency2graph, _adjacency_adjust, QueueNetworkDiGraph, graph2dict', GW), ('_prepare_graph, _set_queues', GP)], ['edges, ep(), edge_index, graph2dict()'])
P('C19', 'Generated transition matrices are routing distributions on the graph',
  'A generated transition matrix is non-negative, each row of a vertex with out-edges sums to one, and it is zero wherever there is no edge. It can be set on a network over the same graph, and agents then follow it. An integer seed is set before anything is drawn.',
  ['inputs', 'configurations'],
  'for every small graph and every value the random source may return',
  'Tests check one random graph and seed.',
  [GF, GG, NET], [('generate_transition_matrix', GG), ('set_transitions', NET)], ['returned matrix'])
P('C20', 'Random graph generators produce the graphs they describe',
  'The geometric generators return exactly the requested vertices with the positions drawn, connect exactly the vertices closer than one radius, and the radius is the smallest that makes minimal_random_graph one connected component. Random edge types follow the counts of the given proportions, with terminals on loops at distinct vertices. Types by rank give a loop of type 3 to the highest-ranked vertices (the proportion of type 2 vertices, rounded up), a loop of type 2 to vertices near random points (at most the proportion of type 3 vertices), add loops where they are missing, and type 1 to all other edges. An integer seed is set before anything is drawn.',
  ['inputs', 'configurations'],
  'for every point set on up to four vertices and every outcome of the random choices',
  'Tests look at connectivity and proportions of one graph of fixed size per generator.',
  [GG, PW], [('minimal_random_graph, generate_random_graph, set_types_random, set_types_rank, _calculate_distance', GG)], ['vertices, edges, edge_type'])
P('C21', 'Union-find maintains exactly the partition generated by its unions',
  'Two elements are reported in the same cluster exactly when a chain of union operations joins them, the number of clusters and the size of each cluster are right after every operation, and repeated or self unions change nothing.',
  ['inputs', 'histories'],
  'for every sequence of union and find operations over a few elements',
  'One test performs a fixed sequence.',
  [UF], [('UnionFind.union, find, size', UF)], ['find(), size(), nClusters'])
P('C22', 'The network event heap always yields the earliest valid time of a queue',
  'The event heap returns, for every sequence of insertions and removals, entries in non-decreasing order of time among the latest time given for each queue, never an outdated time, each at most once, and reports emptiness instead of a made-up entry. It stays inside its storage, which grows as needed.',
  ['inputs', 'histories'],
  'for every sequence of pushes and pops of bounded length, any initial content including none, any order and ties of times',
  'Tests push distinct random times and pop them all; stale duplicates, ties and growth from empty are not tried, and memory errors in this compiled code are silent.',
  [PQ], [('PriorityQueue.push, pop, heapify', PQ)], ['pop()', 'size'])
P('C23', 'Non-homogeneous Poisson generation is exact thinning of the dominating process',
  'The next time returned is the first candidate of the dominating stream, strictly after the start, that is accepted with probability rate divided by maximal rate; candidates are spaced by exponential gaps of the maximal rate and the rate is evaluated at the candidate. For a rate equal to the maximum every candidate is accepted, and a rate of zero accepts none.',
  ['inputs'],
  'for every start time, maximal rate, rate function values and random draws, up to a bounded number of rejections',
  'Statistical tests on samples cannot tell thinning at the candidate time from thinning at the previous one unless the rate varies steeply.',
  [QS], [('poisson_random_measure', QS)], ['returned time', 'calls of the rate function'])
P('C24', 'A shared resource is never over-used, leaked or double-returned',
  'In networks of resource queues the number of servers available plus the number held by resource agents stays constant: an agent without a resource takes one when it departs a resource queue, an agent with one gives it back at the next resource queue it arrives at and is then gone. No more agents are in service than resources are available, an arrival that finds no place is blocked and counted once, agents that wait are served as soon as resources come (back), and deposits beyond the maximum are counted. An agent that is not a resource agent sees a loss queue. External arrivals keep coming as long as the queue is active, also after blocked ones and returns.',
  ['schedules', 'inputs', 'histories', 'configurations'],
  'for every arrival/service sequence, number of resources, blocking mode and order of takes and returns over small networks',
  'One test samples a network and checks that a counter stays below a bound.',
  [QX], [('ResourceQueue.next_event, set_num_servers; ResourceAgent.queue_action', QX)], ['num_servers', 'over_max', 'num_blocked'])
P('C25', 'Information carried by agents is true and never newer information overwritten',
  'An information queue behaves like a loss queue, event for event. The records of the network that agents carry and queues hold are, for every queue, a state that queue really had at the recorded time; a queue learns what an arriving agent knows and an agent what the queue it visits knows, of two records of a queue the more recent is kept, and after a visit the agent knows the state of the queue just visited.',
  ['schedules', 'inputs', 'histories'],
  'for every visit order, arrival/service sequence and interleaving of a few agents and queues',
  'The test only checks that some information is present after a run.',
  [QX], [('InfoQueue.next_event, extract_information; InfoAgent.queue_action, set_attributes', QX)], ['InfoQueue.net_data', 'InfoAgent.net_data'])
P('C26', 'Drawing never changes the simulation, and every colour is the right queue\'s',
  'Animating processes exactly the same events as simulating, and each frame shows the colours a full drawing of that state shows. Every displayed edge colour is computed from the queue on that very edge, a vertex from the queue on its loop or else from the queues leading to it; all are valid colours (components between 0 and 1, never lighter with more agents). Showing active queues or an edge type marks exactly those, drawing changes neither the simulation nor the colours shown afterwards, and resetting restores each edge\'s and vertex\'s own default.',
  ['schedules', 'inputs', 'configurations'],
  'for every history of a small network, colour settings and queue loads, and every small graph',
  'Tests compare one drawn frame; colours of other edges and loads near saturation are not looked at.',
  [NET, QS, GP], [('_update_graph_colors, _update_all_colors, reset_colors, animate, show_active, show_type', NET), ('_current_color', QS)], ['edge_color, vertex_fill_color, counters'])
P('C27', 'Drawing hands each edge and vertex its own place and colour',
  'Whatever the graph, the positions and the order in which attributes were set, a drawing consists of each edge once, from the position of its source to that of its target and in the colour set for it, and each vertex once, at its position and in its colours. Positions given to a drawing are used; options for lines, points, background and file are passed on and override defaults, unknown ones are not, and a figure given a file name is saved instead of shown.',
  ['inputs', 'configurations'],
  'for every directed graph on up to four vertices, all positions, all colours and the documented drawing options',
  'The image comparison of the tests uses one graph, and skips where matplotlib is missing.',
  [GW, NET], [('draw_graph, lines_scatter_args, set_ep, set_vp', GW), ('draw', NET)], ['arguments handed to matplotlib'])
P('C90', 'The random variates have the advertised statistical distributions',
  'The draws behind arrivals, services, routing and graph generation follow the advertised distributions (uniform, exponential, choice without replacement) in the statistical sense.',
  ['inputs'], 'over the probability space of the generator',
  'A finite sample only bounds the deviation.',
  [QS, CH, GG], [('numpy.random', QS)])
P('C91', 'Rendered figures and saved animations show the state of the network',
  'The figure or movie files written by the drawing functions depict the vertices, edges and colours that the network holds at that moment.',
  ['inputs', 'histories'], 'for every network state and drawing option',
  'Tests compare one image with a reference under a tolerance.',
  [GW, NET], [('draw_graph, lines_scatter_args, animate', GW + '; ' + NET)])

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(p, 'w') as f:
    for o in OUT:
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o) + '\n')
