#!/usr/bin/env python3
"""Writes the per-property part of /verif/DESIGN.md from the modules of mc/props, the notes below and known_findings.json."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
known = json.load(open(os.path.join(V, 'known_findings.json')))

# property: (oracle, bounds of the quick tier -> thorough tier, what this reaches that tests do not)
NOTES = {
 'C01': ('counting: every index exactly once over clusters and noise, again after a second process()', '27 algorithms, sequences of up to 4 (5) points of a 3-value line, planar sets of 3 (4), structured sets up to 14 points', 'duplicates, single points, parameters beyond the data (radius 0, more clusters than points) for every algorithm at once'),
 'C02': ('snapshots of the arguments and of the first run with plain lists', 'histories of 2 runs (3) over 5 containers of data and 4 of initial values, 28 algorithms and tools', 'aliasing of arguments and state left by an earlier run only show in combinations of container and history'),
 'C03': ('core points, density components and border rule written from the definition, any tie of border points', 'line sequences of 5 (7), planar sets of 4 (6) on a 3 x 3 grid, points / matrix, both implementations', 'border points reachable from two clusters and order dependence need exhaustive orders'),
 'C04': ('replay of the reported ordering: each object must be the one with the smallest reachability among seeds; clusters and radius derived from the ordering', 'sequences of 5 (6), radii on both sides of each distance, requested amounts', 'ties and updates of seeds need particular orders'),
 'C05': ('set of partitions reachable by greedy merges with any tie-break, by breadth-first search', 'sequences of 6 (7), 4 links, lists / numpy / tuples', 'all tie-breaks are accepted exactly, nothing else is'),
 'C06': ('exact reference Lloyd iterations where no decision is tied; definition of centers, error, prediction always', 'sequences of 5 (6) with all initial centers of the grid, 9 metrics, offsets and magnitudes', 'empty clusters, ties, iteration limits, metrics of both implementations'),
 'C07': ('as C06 with medians per dimension', 'as C06', 'even sizes and unsorted dimensions'),
 'C08': ('set of medoids reachable by best-improvement exchanges with any tie-break (breadth-first search)', 'sequences of 5 (6), points and matrices, all initial medoids', 'second-best exchanges and stale distances need particular configurations'),
 'C09': ('all sequences of random answers on the real code; states in which a reference search can end', 'all answers for data of up to 4 points, up to 3 deviations beyond', 'random tests see one path; here each answer tree is complete'),
 'C10': ('complete exploration of a model of splitting with any two seeds, every result must be reachable in it; core driven by the tape (tape.hpp)', 'sets of up to 6 points complete, bounded deviations up to 12', 'splitting criteria at their borders'),
 'C11': ('set of results the scheme allows with ties either way', 'all sequences of 5 (6) points, thresholds on both sides of each distance', 'orders and thresholds exactly at distances'),
 'C12': ('cells tile the bounding box and hold each point; clusters are components of neighbour cells over the density', 'sequences up to 5 (6) in 1-3 dimensions, 1..5 intervals', 'points on borders of cells, neighbourhood in 3 dimensions'),
 'C13': ('independent construction of the grid directory, neighbours, dendrogram', 'sequences up to 5 in 1-2 dimensions, levels 1..6', 'border points, density ties'),
 'C14': ('partitions reachable by merging a pair of largest goodness', 'sequences up to 6 (7)', 'radii equal to distances, ties of goodness'),
 'C15': ('states (clusters with representatives) reachable by merging closest pairs', 'sequences up to 6', 'queue order after merges only matters in particular geometries'),
 'C16': ('reference iterations of FCM and EM', 'sequences up to 4 (5), all initial centers of the grid, impossible components; all answers of own initialisation with 2 (3) deviations', 'points on centers, singular covariances, dropped components'),
 'C17': ('model tree: entries as multisets of points, sums and radius recomputed; invariants of nodes after each insertion', 'all insertion sequences of length 6 (8) over 4 points x limits', 'splits of splits'),
 'C18': ('a multiset of (point, payload) and brute-force search; order invariant of the tree', 'all start sets and histories of insertions and removals of depth 4 (6), C++ and Python trees', 'removal of inner nodes with equal coordinates'),
 'C19': ('formulas of each metric, metric axioms, agreement of list / numpy / core', 'all pairs of points of grids with zeros, negatives, equal coordinates in 1-3 dimensions', 'zero and negative coordinates, odd degrees'),
 'C20': ('definition of the silhouette; each reported score or error must come from some choice of initial centers (complete answer tree)', 'sequences of 5 (6), all divisions into clusters', 'score of singletons, coincident points, search over negative scores'),
 'C21': ('ordered clusters of point values after each conversion', 'all conversion sequences of length 3 (4)', 'noise, repeated points, numpy data'),
 'C22': ('exact distribution of results: random answers are cells between thresholds weighted by their size', 'sequences up to 5, all amounts and candidates', 'probabilities of particular outcomes, which no sampling test decides'),
 'C23': ('exact probability of every subset is 1 / C(n, k)', 'streams up to 6 (7), R and X algorithm', 'a biased sampler passes every sampling test'),
 'C24': ('a map of edges compared after every operation', 'all sequences of length 3 (4) on collections of 3 nodes; all structures of up to 16 nodes', 'erase / set / copy histories'),
 'C25': ('every index exactly once; each task executed once and before its waiter goes on; no deadlock, no data race (vector clocks)', 'all interleavings up to 2 (3) preemptions of clients with up to 3 threads, plus spurious wake-ups', 'schedules'),
 'C26': ('packed = extracted = what the core echoes', 'all containers of 3 x 3 boundary values, all element types; all histories of depth 4 (5); 9 states of the library file', 'strides, views, empty rows, release order'),
 'C27': ('proper colouring and reachability by the DSATUR scheme; ensembles from the definition', 'all graphs of 6 (7) vertices and structured families', 'all labelled graphs, not samples'),
 'C28': ('explicit model of a map (competition, adaptation, stop) which follows all ties', 'all operation sequences of length 3 (4) over 9 operations, all shapes to 4 x 4 (6 x 6), 4 structures, 4 initialisations, data up to 3 (4) points of grids', 'store / retrain / restore histories, ties, both implementations step by step'),
 'C29': ('adjacency predicate of each structure', 'all sizes to 12 (20), all grid shapes, all sequences of 3 (4) set_connection calls', 'shapes that are not square'),
 'C30': ('replay of each recorded row on the coupling equation (fine Runge-Kutta); ensembles and order from their definition', 'networks of 1-3 oscillators, phases over a grid of the circle, synthetic dynamics of 3 (4) oscillators', 'the wrap of the circle'),
 'C31': ('records of an observer: fitness, best so far, validity; set of reachable chromosomes of each operator', 'complete trees for 2-3 points, 2 deviations beyond', 'every outcome of selection, crossover and mutation'),
 'C32': ('discrete equations exactly, continuous ones by fine Runge-Kutta, ensembles from the definition', 'networks of 1-4 (6) oscillators, all recorded dynamics of 3 oscillators x 4 rows, 1..40 (130) steps', 'parameters that reach only one implementation, histories of simulations'),
 'C33': ('each quantity recomputed with exact arithmetic', 'all small inputs of every helper', 'orders, empty and degenerate inputs, numpy against lists'),
 'C34': ('differential: both implementations on data without ties', 'all orders of subsets of 3 irregular sets, 17 families of algorithms', 'agreement over whole parameter grids'),
}

def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out

lines = ['## Properties', '', 'Quick checks take 5 to 60 s of wall time on 8 cores (plus about 30 s for the first build of a tree), thorough ones up to 12 minutes;',
         'each run writes what it covered (cases, states, transitions, cases outside of preconditions) to evidence/.', '']
for p in props:
    c = consts(os.path.join(V, 'mc/props', p['id'].lower() + '.py'))
    oracle, bounds, why = NOTES[p['id']]
    lines += ['### %s %s (%s)' % (p['id'], p['title'], c['LEVEL'].replace('_', ' ')), '', '* Enumerated: ' + c['RULE'] + '.', '* Oracle: ' + oracle + '.', '* Bounds, quick (thorough): ' + bounds + '.',
              '* Beyond tests: ' + why + '.', '* Preconditions: ' + '; '.join(c.get('ASSUMPTIONS', ['none'])) + '.', '']
lines += ['## Genuine defects', '', 'Recorded, not repaired (each is pinned by a stable test of the repository or is a change of convention; the check reports it only when the result',
          'is exactly that of a model of the recorded behaviour, any other deviation is a violation):', '']
lines += ['* %s `%s`: %s' % (k['property'], k['key'], k['what']) for k in known if k['status'] == 'known']
lines += ['', 'Repaired (`fix:` commits):', '']
lines += ['* %s %s: %s' % (k['property'], k['commit'], k['what'].split(k['commit'], 1)[1].strip()) for k in known if k['status'] == 'fixed']
head, tail = open(os.path.join(V, 'tools/design_head.md')).read(), open(os.path.join(V, 'tools/design_tail.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(head.rstrip() + '\n\n' + '\n'.join(lines) + '\n\n' + tail)
