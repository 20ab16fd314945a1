#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from check import GROUPS

DET = ('TLA+ spec %s explored with TLC; behaviours generated from it (exhaustive within small bounds, random beyond) are '
       'executed on the real code and the recorded traces are checked against the specification by TLC')
TECH = {g: DET % s for g, s in dict(
    router='Router', pattern='Pattern', dispatch='Dispatch', mstack='MStack', response='Response', std='Std').items()}
SCHED = ('TLA+ spec %s explored with TLC; programs derived from it are executed on the real code in quiescent steps and under a controlled '
         'scheduler (statement-level interleavings of mechanically instrumented sources, virtual time), and every recorded history is '
         'checked by TLC, which infers the linearisation points')
TECH.update({g: SCHED % s for g, s in dict(listener='Listener', graceful='Graceful', http='Http', routerconc='RouterConc').items()})
TECH['bind'] = DET % 'Bind' + '; concurrent declarations of readiness run under a controlled scheduler'
TECH['tls'] = ('TLA+ spec Tls explored with TLC; configurations, offers and histories of handshakes generated from it are run against servers of the '
               'package over loopback and the recorded outcomes are checked against the specification by TLC, as are those of the standard library\'s server')
TECH['top'] = ('TLA+ specs Top and TopRun explored with TLC; histories of calls and of a serving process generated from them are run in processes of '
               'their own (real sockets, signals, readiness channel) and the recorded traces are checked against the specifications by TLC')
NOTE = {
    'top': 'All short histories of top-level calls followed by requests with every method; all short histories of a serving process with two connections, '
           'signals, pauses, failing listeners and late handlers (sampled), for every way to listen. Signals other than the standard ones are not explored. '
           'Trusts the trace driver.',
    'tls': 'Every combination of related settings with every related offer (versions, protocols, suites and curves, client authentication, the rest, '
           'configurations chosen per client), histories of up to four handshakes with two servers for sessions, random mixtures of everything. crypto/tls '
           'is part of what is observed. Trusts the trace driver.',
    'routerconc': 'All programs of two threads with up to two operations each (sampled in the quick tier, three in the thorough one) under random schedules '
                  'with two preemptions, random programs of up to five threads under random schedules; patterns and handlers that register. '
                  'Sequentially consistent memory; trusts the scheduler shims and the trace driver.',
    'http': 'Every transition of the sequential state graphs of servers, connections, requests and shutdowns (sampled in the quick tier), random histories, '
            'random schedules of overlapping steps; the real net/http server runs over scripted connections in virtual time. Trusts the scheduler '
            'shims (net/http only has its mutexes replaced) and the trace driver.',
    'bind': 'Every combination of presence, malformation and foreignness of the environment hints (28224 environments, sampled in the quick tier), '
            'all short lives of a process and random longer ones, each in a process of its own with inherited descriptors and a stand-in '
            'Einhorn master. Host names, IPv6 and missing EINHORN_FD_n are not explored. Trusts the trace driver.',
    'C26': 'As C27, with the real net/http server on top (Http); claimed for the Serve functions of the package. Two shapes of the same defect '
           '(a request that has only partly arrived on a kept or new connection may be cut off) are known findings.',
    'listener': 'Every transition of the sequential state graph with two connections (sampled in the quick tier), random histories, all '
                'interleavings with two preemptions of pairs of operations, random schedules of up to five overlapping operations. Sequentially '
                'consistent memory; trusts the scheduler shims and the trace driver.',
    'graceful': 'Every transition of a sequential state graph with two connections, two listeners, hooks, signals, double-kick window and timeout '
                '(sampled in the quick tier), random histories with hooks that wait or call the package, random schedules of up to five '
                'overlapping calls and signals, virtual time. Signals are delivered through a stand-in for os/signal. Sequentially consistent '
                'memory; trusts the scheduler shims and the trace driver.',
    'router': 'Every route table of up to 4 silent patterns over 7 prefixes and of up to 2 answering patterns, plus random tables of up to '
              '14 string, regexp and custom patterns; each request outcome compared with first-match routing. Trusts the trace driver.',
    'pattern': 'All short patterns on all short paths, random longer ones; oracle is the TLA+ matcher, itself checked by TLC against a '
               'declarative definition. Trusts the trace driver.',
    'dispatch': 'Nested muxes with explicit routing, sub-routers, path rewriting, foreign and removed matches, panics and all handler and '
                'pattern forms; every small nest exhaustively, random deeper ones. Trusts the trace driver.',
    'mstack': 'All short histories of edits, requests and overlapping requests on a small middleware alphabet, random longer ones. Edits '
              'strictly simultaneous with a request start are documented as illegal and not explored. Trusts the trace driver.',
    'response': 'Every short program of the handler under every small stack of Logger, Recoverer, AutomaticOptions, RequestID and WrapWriter layers '
                'over scripted clients with every combination of capabilities, random longer ones, also over real HTTP/1.1 and HTTP/2. The '
                'client is specified as net/http behaves. Trusts the trace driver.',
    'std': 'Every small stack of the preparation middleware over every small request, random interleaved requests through several muxes; for C17 also '
           'over a million requests from parallel goroutines. Trusts the trace driver.',
}
LEVEL = {}

props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    g = next((g for g, ids in GROUPS.items() if p['id'] in ids), None)
    if g is None:
        na.append(dict(property=p['id'], reason='check not built yet (work in progress)'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s' % p['id'],
                       thorough_cmd='python3 tools/check.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=TECH[g], level=LEVEL.get(p['id'], 'model_checking'),
                       level_note=NOTE.get(p['id'], NOTE.get(g, ''))))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='verif', enable='no hooks are needed: the checks use the public API of /repo and, for controlled schedules, '
                    'a scratch copy of the working tree instrumented at check time', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Specifications in spec/, drivers in harness/, orchestration in tools/. See DESIGN.md.')
with open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
