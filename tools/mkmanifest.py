"""Writes MANIFEST.json from the check registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'symq')]
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C90': 'a statistical statement about numpy\'s C generator; the solver quantifies over every value a draw may take, not over their frequencies, so there is no assertion for it to decide',
 'C91': 'pixels and movie files come out of matplotlib and image encoders in C; nothing of that is within reach of a symbolic encoding (what is handed to the renderer is covered by C26 and C27)',
}
TECH = 'symbolic execution of the real Python and Cython functions on z3 terms; SMT decides every fork and assertion over all values within the bounds; counterexamples replayed on the compiled build'
NOTE = 'Bounded model checking: every path within the bounds printed in the evidence (events, agents, queues, sizes) for all values of the symbolic inputs. Trusts z3, the Cython-to-Python translation (sampled paths are re-run on the real compiled build) and exact reals in place of doubles. '
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': './check %s --tier quick' % p,
                            'thorough_cmd': './check %s --tier thorough' % p,
                            'technique': TECH, 'level': 'model_checking',
                            'level_note': NOTE + checks.CHECKS[p].get('note', '')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
m['notes'] = 'Known findings: known_findings.jsonl. Replay a counterexample: ./check --replay replays/<file>.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
