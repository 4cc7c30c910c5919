#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))


C = 'pyclustering/cluster/'
S = 'ccore/src/cluster/'
H = 'ccore/include/pyclustering/'

prop('C01', 'Every clustering result is a partition of the input points',
     'Whatever the data and parameters, every clustering algorithm (Python or C++ core) returns clusters of valid point indexes in which every input point appears exactly once over all clusters, plus the noise or outlier list where the algorithm has one; no point is lost, duplicated or invented.',
     ['inputs', 'configurations'], 'all data sets, including duplicated points, single points, points on cell or radius borders; all admissible parameters; both implementations; process() repeated',
     'Tests check the sizes of clusters on a few sample files; losing or duplicating a point needs ties, duplicates or border values.',
     [C + f for f in ('agglomerative.py', 'bang.py', 'birch.py', 'bsas.py', 'clarans.py', 'clique.py', 'cure.py', 'dbscan.py', 'ema.py', 'fcm.py', 'ga.py', 'gmeans.py', 'hsyncnet.py', 'kmeans.py', 'kmedians.py', 'kmedoids.py', 'mbsas.py', 'optics.py', 'rock.py', 'somsc.py', 'syncnet.py', 'syncsom.py', 'ttsas.py', 'xmeans.py')],
     [('cluster assignment and merge steps of every algorithm', 'pyclustering/cluster/*.py, ccore/src/cluster/*.cpp')], ['get_clusters()', 'get_noise()'])
prop('C02', 'Algorithms leave the caller\'s data alone and can be run again',
     'Running an algorithm never changes the data set, initial centers, medoids or metric object passed by the caller, whichever accepted container holds them, and the result does not depend on whether the data came as nested lists, tuples or a numpy array. A new object with the same input (and the same source of randomness) gives the same result, and so does calling process() again on the same object for every algorithm that makes no random choice and does not by design continue from what it has reached (fuzzy C-means, expectation maximization, and OPTICS with a requested amount of clusters continue).',
     ['inputs', 'histories'], 'all data sets and parameters; histories of repeated construction and process() calls on shared inputs',
     'Tests build fresh inputs for every call and never look at them afterwards.',
     [C + f for f in ('kmeans.py', 'kmedians.py', 'kmedoids.py', 'bsas.py', 'mbsas.py', 'ttsas.py', 'clique.py', 'bang.py', 'agglomerative.py', 'cure.py', 'silhouette.py', 'center_initializer.py', 'dbscan.py', 'fcm.py', 'xmeans.py')],
     [('copies of user input and initialisation at the start of process()', 'pyclustering/cluster/*.py'), ('copying data over the C boundary', 'pyclustering/core/pyclustering_package.py')])
prop('C03', 'DBSCAN returns exactly the density-connected components',
     'With a point called core when at least the given number of other points lie within the radius (inclusive), two core points share a cluster exactly when a chain of core points, each within the radius of the next, joins them; a non-core point is in the cluster of some core point within the radius, or is noise exactly when it has none. This holds for points and for a distance matrix, in Python and in the C++ core.',
     ['inputs', 'configurations'], 'all data sets and orders of points, radii (including distances equal to the radius), thresholds, both input types, both implementations',
     'Tests compare cluster sizes of a dozen data files with one radius each.',
     [C + 'dbscan.py', S + 'dbscan.cpp', 'pyclustering/container/kdtree.py', 'ccore/src/container/kdtree_balanced.cpp'],
     [('seed expansion', 'dbscan.__expand_cluster / dbscan::expand_cluster'), ('neighbour search', 'kdtree find_nearest_dist_nodes / kdtree_searcher')], ['get_clusters()', 'get_noise()'])
prop('C04', 'OPTICS ordering, core and reachability distances obey their definition',
     'The core distance of each object is the distance to its n-th nearest other point when that lies within the radius and absent otherwise; each cluster is listed in processing order, every member after the first having as reachability the minimum over earlier core members of max(core distance, distance), always the smallest among those still waiting; and the reported ordering is the reachabilities of the clustered objects in that order. When a number of clusters is requested and the radius is changed, the clusters, noise and objects are those of a plain run with the reported radius.',
     ['inputs', 'configurations'], 'all data sets, radii, minimum neighbours, requested amounts of clusters, points or distance matrix, both implementations',
     'Tests look at cluster sizes, not at the ordering, and at a few radii.',
     [C + 'optics.py', S + 'optics.cpp', S + 'ordering_analyser.cpp', H + 'cluster/optics_descriptor.hpp'],
     [('seed queue', 'optics.__update_order_seed / optics::update_order_seed'), ('extraction', '__extract_clusters'), ('radius search', 'ordering_analyser')], ['get_clusters()', 'get_noise()', 'get_ordering()', 'get_optics_objects()', 'get_radius()'])
prop('C05', 'Agglomerative clustering merges the closest pair until k clusters remain',
     'Starting from one cluster per point, each step merges a pair of clusters at the smallest distance under the chosen link (over squared Euclidean distances; single: nearest members, complete: farthest members, average: mean over member pairs, centroid: distance of the means), until exactly the requested number of clusters remains (or there are not more points than clusters).',
     ['inputs', 'configurations'], 'all data sets, all four links, all requested numbers of clusters, both implementations',
     'Tests use well separated samples on which every link gives the same answer.',
     [C + 'agglomerative.py', S + 'agglomerative.cpp'], [('link merges', 'agglomerative.__merge_* / agglomerative::merge_by_*')], ['get_clusters()'])
prop('C06', 'K-Means centers are means, points go to the nearest center, error is exact',
     'After K-Means every reported center is the mean of its cluster, the total error is the sum of distances (squared for the default metric) of points to the center of their cluster, and predict() assigns each point to a nearest reported center. When it stops by tolerance, no assignment step moves a center further than the tolerance; with an iteration limit the result is that of exactly that number of Lloyd iterations from the given centers.',
     ['inputs', 'configurations'], 'all data sets, initial centers (including ones that attract no point), metrics, tolerances and iteration limits, both implementations',
     'Tests compare expected cluster sizes on samples with good initial centers.',
     [C + 'kmeans.py', S + 'kmeans.cpp'], [('assignment and update', 'kmeans.__update_clusters, __update_centers / kmeans::update_clusters'), ('prediction', 'kmeans.predict')], ['get_clusters()', 'get_centers()', 'get_total_wce()', 'predict()'])
prop('C07', 'K-Medians centers are coordinate-wise medians of their clusters',
     'After K-Medians every reported median is, in each coordinate separately, a median of the points of its cluster, the reported total error is the sum of metric distances of points to their medians, predict() assigns each point to a nearest median, and with an iteration limit the result is that of exactly that number of assign/median iterations from the given medians.',
     ['inputs', 'configurations'], 'all data sets, initial medians, metrics, tolerances and iteration limits, both implementations',
     'Tests use samples on which wrong medians still separate the groups.',
     [C + 'kmedians.py', S + 'kmedians.cpp'], [('median calculation', 'kmedians.__update_medians / kmedians::calculate_median')], ['get_clusters()', 'get_medians()', 'get_total_wce()', 'predict()'])
prop('C08', 'K-Medoids and PAM build make only locally optimal choices',
     'PAM build picks each next medoid so that the total deviation becomes as small as one more medoid can make it. K-Medoids returns distinct medoids that are data points, each point in the cluster of a nearest medoid; its total deviation is never worse than that of the initial medoids, and when it stops by tolerance each iteration makes the exchange that improves the total deviation most, so that when it stops with zero tolerance no exchange of a medoid with another point improves it.',
     ['inputs', 'configurations'], 'all data sets (points or distance matrix), initial medoids, metrics, tolerances, iteration limits, both implementations',
     'Tests compare cluster sizes; a wrong or missed swap normally still gives the same clusters there.',
     [C + 'kmedoids.py', C + 'center_initializer.py', S + 'kmedoids.cpp', S + 'pam_build.cpp'], [('swap', 'kmedoids.__swap_medoids / kmedoids::swap_medoids'), ('build', 'kmedoids pam build')], ['get_clusters()', 'get_medoids()', 'predict()'])
prop('C09', 'CLARANS never accepts a worsening exchange, whatever it draws',
     'For every sequence of random draws, CLARANS returns distinct medoids that are data points and clusters assigning each point to a nearest medoid; it reports the best local search it performed, and the final cost is never larger than the cost of any medoid set its searches started from or moved through.',
     ['inputs', 'schedules', 'histories'], 'all data sets, numbers of clusters, search parameters, and all sequences of random answers up to a bound',
     'The tests run it with unseeded randomness a few times and check sizes only.',
     [C + 'clarans.py'], [('neighbour search', 'clarans.__optimize_configuration'), ('best estimation', 'clarans.process')], ['get_clusters()', 'get_medoids()'])
prop('C10', 'X-Means and G-Means respect their limits and report consistent centers',
     'X-Means never returns more clusters than allowed nor fewer than the initial centers that attract points; every center it or G-Means reports is the mean of its cluster, the reported total error is the error of these clusters around these centers, and predict() returns nearest centers. A cluster is split by X-Means only if the splitting criterion of the two children is better than that of the parent.',
     ['inputs', 'configurations', 'schedules'], 'all data sets, initial centers, limits, criteria, metrics, random choices of split candidates, both implementations',
     'The tests for X-Means are excluded or compare sizes on separable samples.',
     [C + 'xmeans.py', C + 'gmeans.py', S + 'xmeans.cpp', S + 'gmeans.cpp'], [('split decision', 'xmeans.__improve_structure / xmeans::improve_structure'), ('criterion', 'bayesian_information_criterion, minimum_noiseless_description_length'), ('normality split', 'gmeans.__statistical_optimization')], ['get_clusters()', 'get_centers()', 'get_total_wce()', 'predict()'])
prop('C11', 'BSAS, MBSAS and TTSAS follow their sequential schemes',
     'BSAS assigns the points in order: a point opens a new cluster when its distance to the nearest representative exceeds the threshold and the limit of clusters is not reached, else joins the nearest one; MBSAS does the same in two passes; TTSAS uses two thresholds and never leaves a point unassigned. The representative of a cluster is the running mean of its points as they join, and the reported clusters, representatives and number of clusters agree with that scheme.',
     ['inputs', 'configurations'], 'all data sets in all orders, thresholds, cluster limits, metrics, both implementations',
     'Tests compare sizes on separable samples, where representatives hardly matter.',
     [C + 'bsas.py', C + 'mbsas.py', C + 'ttsas.py', S + 'bsas.cpp', S + 'mbsas.cpp', S + 'ttsas.cpp'], [('representative update', 'bsas._update_representative / bsas::update_representative'), ('two-threshold loop', 'ttsas.__process_objects')], ['get_clusters()', 'get_representatives()'])
prop('C12', 'CLIQUE clusters are the connected components of dense grid cells',
     'CLIQUE divides the bounding box of the data into equal cells; every point is counted in exactly one cell that contains it (a point on a border in either of the cells), a cell is dense when it holds more points than the density threshold, clusters are exactly the sets of points of dense cells connected face to face, and all other points are noise.',
     ['inputs', 'configurations'], 'all data sets (points on cell borders, equal coordinates), amounts of intervals, thresholds, both implementations',
     'Tests use sizes on sample files; border points and degenerate dimensions do not occur there.',
     [C + 'clique.py', S + 'clique.cpp', S + 'clique_block.cpp'], [('cell allocation', 'clique.__create_grid, spatial_block / clique::create_grid'), ('expansion', 'clique.__expand_cluster')], ['get_clusters()', 'get_noise()', 'get_cells()'])
prop('C13', 'BANG blocks tile the data space and clusters are connected dense blocks',
     'The leaf blocks of the BANG directory result from halving blocks in turn along the dimensions and cover every point (a point on a border counts for all blocks it touches but is reported once); each cluster is exactly the points of a maximal set of touching leaf blocks whose density and amount of points exceed the thresholds, all other points are noise, and the dendrogram accounts for exactly the blocks of the clusters.',
     ['inputs', 'configurations'], 'all data sets, numbers of levels, density and amount thresholds',
     'Tests use sizes on sample files; points on block borders do not occur there.',
     [C + 'bang.py'], [('directory', 'bang_directory'), ('allocation', 'bang.__allocate_clusters')], ['get_clusters()', 'get_noise()', 'get_directory()', 'get_dendrogram()'])
prop('C14', 'ROCK merges the pair of clusters with the best goodness until none is left',
     'Two points are neighbours when their distance is less than the radius and the links of two clusters are their pairs of neighbours; each step merges a pair of clusters with the largest goodness (links divided by the expected number for the sizes and the threshold), until the requested number of clusters is reached or no two clusters share a link.',
     ['inputs', 'configurations'], 'all data sets, radii, thresholds and numbers of clusters, both implementations',
     'Tests compare sizes on separable samples.',
     [C + 'rock.py', S + 'rock.cpp'], [('goodness', 'rock.__calculate_goodness / rock::calculate_goodness'), ('pair search', 'rock.__find_pair_clusters')], ['get_clusters()'])
prop('C15', 'CURE merges the closest pair by representatives and reports consistent output',
     'CURE reduces the points to the requested number of clusters by always merging two clusters whose representative points are closest; reported means are the means of the clusters, and the representatives of a cluster are at most the requested number of its points moved towards the mean by the compression factor.',
     ['inputs', 'configurations'], 'all data sets, representatives, compressions, cluster numbers, both implementations',
     'Tests compare sizes on separable samples and never look at means or representatives.',
     [C + 'cure.py', S + 'cure.cpp', S + 'cure_data.cpp'], [('merge and queue update', 'cure.__merge_clusters / cure_queue::merge')], ['get_clusters()', 'get_representors()', 'get_means()'])
prop('C16', 'Fuzzy C-Means and EM results are consistent with their own memberships',
     'Fuzzy C-Means memberships lie in [0, 1], sum to one for every point (also for one that coincides with a center) and follow the documented formula from the distances to the centers used, centers are the documented weighted means, iterations stop at the tolerance or limit, and each point is in the cluster of its largest membership. Each EM iteration computes responsibilities from the Gaussian densities of its components and new means and covariances from the responsibilities; clusters assign each point to the component with the largest responsibility, reported means, covariances and probabilities belong to these clusters, and the probabilities of every point sum to one.',
     ['inputs', 'configurations'], 'all data sets (including points equal to a center), initial centers, fuzziness, tolerances, iteration limits, both implementations',
     'Tests check memberships sum to one on samples where no point meets a center.',
     [C + 'fcm.py', S + 'fcm.cpp', C + 'ema.py'], [('membership update', 'fcm.__update_membership / fcm::update_point_membership'), ('responsibilities', 'ema.__expectation_step')], ['get_membership()', 'get_centers()', 'get_clusters()', 'get_probabilities()'])
prop('C17', 'CF-tree summaries stay exact under every insertion sequence',
     'After any sequence of insertions into a CF-tree, every node\'s clustering feature (count, linear sum, square sum) equals the sum over its children or points, counts of nodes, leaves, entries and height are right, no node exceeds its branching limit nor a leaf entry the diameter it was allowed, and nothing inserted is lost; BIRCH returns clusters built from exactly those entries.',
     ['histories', 'inputs', 'configurations'], 'all insertion sequences over small point alphabets, branching factors, entry limits, diameters, measurements',
     'Tests insert one sample in file order with a few settings.',
     ['pyclustering/container/cftree.py', C + 'birch.py'], [('insertion and split', 'cftree.insert, __split_leaf_node, __split_nonleaf_node, __merge_nearest_successors'), ('rebuild', 'birch.__rebuild_tree')], ['cftree.root, leafes, amount_nodes, amount_entries, height'])
prop('C18', 'A k-d tree answers like a list of the stored points after any history',
     'After any sequence of insertions and removals, a k-d tree (Python insertable and balanced, C++ through the algorithms that use it) finds every stored point and payload and no other, its nearest-point answer is one of the true nearest within the given radius, and its radius search returns exactly the stored points within the (inclusive) radius.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over small point alphabets with duplicates; all radii around the distances; also the C++ trees',
     'Tests build a few trees and query a few points; removal re-links subtrees in ways only special orders exercise.',
     ['pyclustering/container/kdtree.py', 'ccore/src/container/kdtree.cpp', 'ccore/src/container/kdtree_balanced.cpp', 'ccore/src/container/kdtree_searcher.cpp'],
     [('remove', 'kdtree.__recursive_remove / kdtree::recursive_remove'), ('search', 'find_nearest_dist_node(s) / kdtree_searcher')], ['insert, remove, find_node, find_nearest_dist_node, find_nearest_dist_nodes'])
prop('C19', 'Metrics satisfy their formulas and axioms in every implementation',
     'Every supported metric returns the value of its published formula, is non-negative, symmetric and zero on equal points, for any dimension including zero and negative coordinates; list, numpy and C++ evaluation of the same metric agree, and a user-defined metric is called with exactly the points given.',
     ['inputs', 'configurations'], 'all pairs of small points in 1 to 4 dimensions over grids with zeros and negative values, all metric types and degrees',
     'Tests evaluate single pairs of positive points.',
     ['pyclustering/utils/metric.py', 'pyclustering/core/metric_wrapper.py', H + 'utils/metric.hpp'], [('distance functions', 'utils/metric.py, utils/metric.hpp'), ('numpy twins', '*_distance_numpy')], ['distance_metric.__call__', 'metric_wrapper'])
prop('C20', 'Silhouette and elbow scores follow their definitions',
     'Each silhouette score equals (b - a) / max(a, b) from mean distances within the own cluster and to the closest other cluster, lies in [-1, 1], and does not depend on how the points are given; the search returns the amount in the requested range with the best average score. Elbow reports one error per requested amount and picks the amount whose error is farthest from the line between the first and the last one.',
     ['inputs', 'configurations', 'schedules'], 'all small labelled data sets (including singletons and duplicates), metrics, ranges of k, seeds, both implementations',
     'Tests check ranges of scores on samples.',
     [C + 'silhouette.py', C + 'elbow.py', S + 'silhouette.cpp', S + 'silhouette_ksearch.cpp', H + 'cluster/elbow.hpp'], [('score', 'silhouette.__calculate_score / silhouette::calculate_score'), ('search', 'silhouette_ksearch, elbow.__find_optimal_kvalue')], ['get_score()', 'get_scores()', 'get_amount()', 'get_wce()'])
prop('C21', 'Changing the representation of clusters loses nothing',
     'Converting a clustering among index lists, labels and object lists, in any sequence of conversions, always describes the same clusters of the same points (noise stays unlabelled), and an encoder refuses only what it documents to refuse.',
     ['histories', 'inputs'], 'all small partitions with noise, empty clusters, duplicates; all sequences of conversions up to a depth',
     'Tests convert one well-formed clustering once or twice.',
     [C + 'encoder.py'], [('conversions', 'cluster_encoder.set_encoding')], ['get_clusters()', 'get_encoding()'])
prop('C22', 'Center initializers return the requested number of distinct data points',
     'For every random outcome and seed, the random and K-Means++ initializers return exactly the requested number of centers, each a data point (as indexes when asked), using different points. K-Means++ draws each next center with probability proportional to its distance to the nearest chosen center (the farthest of several candidates so drawn, or the farthest of all points when asked), hence never a point that coincides with a chosen center while others remain; the same seed gives the same centers, and invalid amounts are rejected.',
     ['inputs', 'schedules'], 'all small data sets, amounts, candidate numbers, and all sequences of random answers over a finite alphabet',
     'Tests draw a few random samples; rare draws (0, 1, ties) are not reached.',
     [C + 'center_initializer.py', S + 'random_center_initializer.cpp', S + 'kmeans_plus_plus.cpp'], [('probability choice', 'kmeans_plusplus_initializer.__get_next_center, __calculate_probabilities'), ('no repetition', 'random_center_initializer.__create_center')], ['initialize()'])
prop('C23', 'Reservoir sampling draws every subset with equal probability',
     'For every stream and sample size the reservoir algorithm returns that many distinct stream elements (never an element twice, never one from outside), and over all outcomes of its random source every subset of the stream of that size is equally likely.',
     ['inputs', 'schedules'], 'all stream lengths and sample sizes up to a bound and all outcomes of the random draws',
     'Tests look at the length of one random sample; a biased sampler passes.',
     ['pyclustering/utils/sampling.py'], [('replacement step', 'reservoir_r, reservoir_x')], ['reservoir_r, reservoir_x'])
prop('C24', 'C++ adjacency structures behave like a set of weighted edges',
     'After any sequence of set and erase operations (with or without weights, in any of the list, matrix or bit-matrix forms), has-connection, neighbour lists, weights, sizes, copies and clearing answer exactly as a set of directed weighted edges would, and out-of-range nodes are refused; connectors build exactly the grid, line, all-to-all or empty structure asked for.',
     ['histories', 'configurations'], 'all operation sequences up to a depth on small graphs, all structure types and sizes, all container forms',
     'Unit tests execute one fixed sequence for each container.',
     ['ccore/src/container/adjacency_bit_matrix.cpp', 'ccore/src/container/adjacency_list.cpp', 'ccore/src/container/adjacency_matrix.cpp', 'ccore/src/container/adjacency_weight_list.cpp', H + 'container/adjacency_connector.hpp'], [('set/erase/has', 'adjacency_*::set_connection, erase_connection'), ('grid rows', 'adjacency_connector::create_grid_*')], ['adjacency_collection interface'])
prop('C25', 'The C++ thread pool and parallel loops run every task once, on any schedule',
     'Under every interleaving of threads, each task given to the pool runs exactly once, waiting for a task returns only after it has run and always returns, the pool accepts a task on the condition that a worker is free only when one is, and it can be destroyed at any time without losing a task or a wake-up or hanging; parallel loops call their body exactly once per index for any range and any number of processors, the spinlock excludes, and the algorithms built on these loops give the same result on every schedule as without threads, accessing shared memory without data races.',
     ['schedules', 'configurations'], 'all interleavings of client threads and workers up to a preemption bound; all loop ranges up to a bound for 1 to 5 processors',
     'Unit tests run free on one machine; a lost wake-up or double run needs a particular interleaving.',
     ['ccore/src/parallel/thread_pool.cpp', 'ccore/src/parallel/thread_executor.cpp', 'ccore/src/parallel/task.cpp', 'ccore/src/parallel/spinlock.cpp', H + 'parallel/parallel.hpp'], [('queue and events', 'thread_pool::add_task, get_task'), ('completion flag', 'task'), ('ranges', 'parallel_for')], ['thread_pool, task, parallel_for, parallel_foreach, spinlock'])
prop('C26', 'Data crosses the Python / C++ boundary unchanged',
     'A container of any supported shape and element type (nested lists, tuples, numpy arrays of any integer or float type, empty and ragged rows) packed for the C++ core is unpacked with the same shape and the same values, and extracting a result twice or after later calls gives the same values. If the core is missing, broken or of another version, algorithms silently fall back to Python with the same meaning of results.',
     ['inputs', 'configurations', 'histories'], 'all small nested containers over an alphabet of boundary values and element types; the states of the library file (absent, not loadable, wrong version, good)',
     'Tests pack a few literal lists.',
     ['pyclustering/core/pyclustering_package.py', 'pyclustering/core/wrapper.py', 'ccore/src/interface/pyclustering_package.cpp', H + 'interface/pyclustering_package.hpp'], [('builder/extractor', 'package_builder, package_extractor / create_package'), ('library state', 'ccore_library')], ['package round trip', 'ccore_library.workable()'])
prop('C27', 'Graph colouring never gives neighbours the same colour (DSATUR)',
     'For every graph the DSATUR colouring assigns each vertex one colour such that adjacent vertices differ, uses no more colours than the maximum degree plus one, is optimal on bipartite graphs, and follows the saturation-degree order. Network-based colouring maps assign every vertex exactly one colour group.',
     ['inputs'], 'all labelled graphs up to a number of vertices',
     'Tests colour about ten sample graphs.',
     ['pyclustering/gcolor/dsatur.py', 'pyclustering/gcolor/sync.py', 'pyclustering/gcolor/hysteresis.py'], [('vertex selection', 'dsatur.process')], ['get_colors()'])
prop('C28', 'SOM winners, awards and captured objects always agree',
     'After training or simulation, the winner of a pattern is a neuron with the smallest distance to it; every presented pattern pulls exactly its winner and the neighbours of the winner within the local radius towards it; the awards of a neuron equal the number of patterns for which it won in the last pass and the captured objects list exactly those patterns; the grid is connected as the chosen structure says, the number of winners is the number of awarded neurons, training with the same seed gives the same map, and a stored and restored map behaves the same.',
     ['inputs', 'configurations', 'histories'], 'all small data sets, map shapes (including 1 x n), structures, initialisations, seeds, epochs, and sequences of train, simulate, store and restore; both implementations',
     'Tests train on a few samples and check winners and sizes.',
     ['pyclustering/nnet/som.py', 'ccore/src/nnet/som.cpp', 'pyclustering/core/som_wrapper.py', C + 'somsc.py'], [('competition and adaptation', 'som._competition, _adaptation / som::competition'), ('pickling', 'som.__getstate__')], ['awards, capture_objects, weights, simulate(), get_winner_number()'])
prop('C29', 'Oscillator networks get exactly the connections that were asked for',
     'A network created with a given structure, size and grid shape has a connection between two oscillators exactly when the structure defines one (grids: adjacent cells of the given height and width), connections are symmetric where the structure is, neighbour lists and connection tests agree in both storage forms, and explicit connections add exactly the named pair.',
     ['configurations', 'histories'], 'all structure types, storage forms, sizes and shapes up to a bound, all short sequences of explicit connections, networks of both implementations',
     'Tests check a few sizes of each structure.',
     ['pyclustering/nnet/__init__.py', H + 'container/adjacency_connector.hpp'], [('grid creation', 'network.__create_grid_four_connections, __create_grid_eight_connections'), ('storage', 'network.has_connection, get_neighbors')], ['has_connection(), get_neighbors(), structure'])
prop('C30', 'Sync results are reproducible from the recorded dynamics',
     'Allocated ensembles of a phase oscillator network put every oscillator in exactly one group: in turn each one joins the first group that has a member within the tolerance of it on the phase circle, otherwise it begins a group. Phases stay in the circle, the order parameter lies in [0, 1] and is 1 exactly for equal phases and decided only by the last phases, each recorded step follows the coupling equation of the network, and the recorded times are increasing.',
     ['inputs', 'configurations'], 'all small networks, structures, initial phases over a grid of the circle (including both sides of the wrap), tolerances, both implementations',
     'Tests look at the number of ensembles for random phases.',
     ['pyclustering/nnet/sync.py', 'ccore/src/nnet/sync.cpp', C + 'syncnet.py', 'ccore/src/cluster/syncnet.cpp'], [('ensemble allocation', 'sync_dynamic.allocate_sync_ensembles / sync_dynamic::allocate_sync_ensembles'), ('order', 'order_estimator / sync_ordering'), ('phase step', 'sync_network._phase_kuramoto')], ['output, time, allocate_sync_ensembles(), sync_order()'])
prop('C31', 'Genetic clustering keeps chromosomes valid and reports its best fitness',
     'For every sequence of random draws each chromosome of genetic clustering assigns every point to one of the allowed clusters after any crossover, mutation or selection, the best chromosome ever seen is what is reported, its fitness is the true sum of distances of points to their cluster centers, and the result is a partition of the points.',
     ['inputs', 'schedules'], 'all small data sets, population settings, and all sequences of random answers up to a bound; the operators separately on all small populations',
     'Tests run unseeded evolution and check the partition loosely.',
     [C + 'ga.py', C + 'ga_maths.py'], [('operators', 'genetic_algorithm._select, _crossover, _mutation'), ('fitness', 'ga_math.calc_centers, calc_probability_vector')], ['process(), get_clusters(), ga_observer'])
prop('C32', 'Pulse and relaxation networks report ensembles that match their output',
     'For pulse-coupled, LEGION, hysteresis, chaotic and Hodgkin-Huxley networks the recorded output has one row per simulated step and one value per oscillator, recorded times follow the simulated time, each row follows from the row before it by the equations of the network with the given parameters, a simulation always ends, the time signal counts exactly the active outputs of each row, and synchronous ensembles list valid oscillators at most once, exactly grouping those whose recorded output coincides as the network defines it.',
     ['inputs', 'configurations', 'histories'], 'all small networks, stimuli, structures and numbers of steps, and all small synthetic recorded dynamics, both implementations',
     'Tests check only that ensembles exist for a few stimuli.',
     ['pyclustering/nnet/pcnn.py', 'pyclustering/nnet/legion.py', 'pyclustering/nnet/hysteresis.py', 'pyclustering/nnet/cnn.py', 'ccore/src/nnet/pcnn.cpp', 'ccore/src/nnet/legion.cpp'], [('ensemble allocation', 'pcnn_dynamic, legion_dynamic, hysteresis_dynamic .allocate_*'), ('recording', 'simulate')], ['output, allocate_sync_ensembles(), allocate_time_signal()'])
prop('C33', 'Geometry and data helpers return what their description says',
     'Corners and dimension information, distances between points, clusters and neighbours, distance matrices, vector arithmetic, ellipse descriptions, grey conversion and pattern borders, oscillation counts and synchronous ensembles of recorded activity, the readers of samples, answers, images and graphs, the data generator and the statistics of the core return exactly the quantity described for every valid input, and do not modify their arguments.',
     ['inputs'], 'all small data sets and index subsets in 1 to 3 dimensions (lists and numpy arrays), all small images and files',
     'Tests exercise single literals for a fraction of the helpers.',
     ['pyclustering/utils/__init__.py', 'pyclustering/utils/dimension.py', 'pyclustering/utils/graph.py', 'pyclustering/samples/__init__.py', C + 'generator.py', 'ccore/src/utils/math.cpp', 'ccore/src/utils/linalg.cpp', 'ccore/src/utils/stats.cpp'], [('helpers', 'pyclustering/utils')], ['return values'])
prop('C34', 'The Python and the C++ implementation of an algorithm agree',
     'For the same data and parameters, an algorithm that makes no random choice returns the same clusters, noise, centers or representatives from its Python implementation and from the C++ core, on every data set in which no two decisions are tied.',
     ['inputs', 'configurations'], 'all small data sets with pairwise distinct distances, all parameters and metrics both implementations accept, and structured larger data sets',
     'Tests run each implementation against its own expected sizes, never against each other.',
     ['pyclustering/core', 'ccore/src/interface', 'ccore/src/cluster', 'pyclustering/cluster'], [('wrappers', 'pyclustering/core/*_wrapper.py, ccore/src/interface/*.cpp')], ['all getters'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
