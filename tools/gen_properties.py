"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json
import os

CS = 'nodefinder/coordinate_system.py'
CTRL = 'nodefinder/search/_controller.py'
RUN = 'nodefinder/search/_run.py'
QUEUE = 'nodefinder/search/_queue.py'
NM = 'nodefinder/search/_minimization/_nelder_mead.py'
MRUN = 'nodefinder/search/_minimization/_run.py'
FAKE = 'nodefinder/search/_fake_potential.py'
MESH = 'nodefinder/search/_mesh_helper.py'
STENCIL = 'nodefinder/search/refinement_stencil.py'
CONT = 'nodefinder/search/result/_search_result_container.py'
CELL = 'nodefinder/search/result/_cell_list.py'
MINRES = 'nodefinder/search/result/_minimization.py'
CSTATE = 'nodefinder/search/result/_controller_state.py'
SPLOT = 'nodefinder/search/plot.py'
IPLOT = 'nodefinder/identify/plot.py'
CPLOT = 'nodefinder/_common_plot.py'
IRUN = 'nodefinder/identify/_run.py'
CLUST = 'nodefinder/identify/_cluster.py'
DIMF = 'nodefinder/identify/_dimension.py'
EVAL = 'nodefinder/identify/_evaluate/_run.py'
POINT = 'nodefinder/identify/_evaluate/_point.py'
LINE = 'nodefinder/identify/_evaluate/_line/_run.py'
LSP = 'nodefinder/identify/_evaluate/_line/_shortest_path.py'
LBA = 'nodefinder/identify/_evaluate/_line/_ballistic.py'
LDS = 'nodefinder/identify/_evaluate/_line/_dominating_set.py'
ICON = 'nodefinder/identify/result/_containers.py'
ISHAPE = 'nodefinder/identify/result/_shapes.py'
IO = 'nodefinder/io.py'

P = []


def prop(id_, title, statement, over, text, why, mech, observe, state=()):
    files = []
    for _, where in mech:
        name = where.split(':')[0]
        if name not in files:
            files.append(name)
    P.append({
        'id': id_,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


prop(
    'C01', 'Distances in the box are exact (minimum image when periodic)',
    'The distance a coordinate system reports between two positions is the length of the shortest displacement between them: the minimum over all lattice translations of the box when it is periodic, and the plain Euclidean distance otherwise. It is therefore symmetric, zero exactly for equivalent positions, obeys the triangle inequality, does not change when a position is moved by whole box lengths (periodic), and does not depend on the order in which the two limits of a dimension are given. One position can be compared with a whole array of positions, which gives the same numbers as comparing them one by one.',
    ['inputs'],
    'All boxes (any dimension, any finite limits in either order, periodic or not) and all positions inside or outside of the box.',
    'No test calls the distance function; the searches under test only use the unit cube, where a wrong size, offset or wrap-around mostly cancels out.',
    [('CoordinateSystem.distance', CS + ':distance'),
     ('CoordinateSystem.__init__ (sorted limits, size)', CS + ':__init__')],
    ['CoordinateSystem.distance(pos1, pos2)'],
)

prop(
    'C02', 'Coordinate conversions and connecting vectors are consistent',
    'Converting a position to fractional coordinates and back gives the same position (up to whole box lengths when periodic), with fractional coordinates 0 and 1 at the lower and upper limits and always in [0, 1] when periodic. Normalizing a position moves it by whole box lengths to inside the limits when periodic and leaves it unchanged otherwise. The connecting vector between two positions leads from the first to (a periodic image of) the second, and its length is their distance, also when given arrays of positions.',
    ['inputs'],
    'All boxes (any dimension, any finite limits in either order, periodic or not) and all positions inside or outside of the box.',
    'No test exercises these conversions directly, and the searches under test only use boxes starting at zero with unit size or symmetric limits.',
    [('get_frac / get_pos', CS + ':get_frac'),
     ('normalize_position', CS + ':normalize_position'),
     ('connecting_vector', CS + ':connecting_vector')],
    ['CoordinateSystem.get_frac', 'CoordinateSystem.get_pos',
     'CoordinateSystem.normalize_position',
     'CoordinateSystem.connecting_vector'],
)

prop(
    'C03', 'Reported nodes are sound: converged, below threshold, inside the box',
    'The nodes of a search result are exactly those minimization results which finished successfully and whose value does not exceed the gap threshold; all other results are reported as rejected, and none is lost or reported twice. The value of every result is the value the gap function returned at that position (up to whole box lengths), also when that is a number of another type (integer, float32, fraction ...), infinite or undefined, and for periodic boxes every reported position lies inside the limits. The result reports the box, the gap threshold and a distance cutoff of one third of the feature size for which the search was run.',
    ['inputs', 'configurations'],
    'All gap functions, boxes, thresholds, feature sizes and search options, and all sets of minimization results put into a result container.',
    'The tests check two fixed potentials, and only that the nodes are close to the known positions; rejected results, exact thresholds and the reported values are never looked at.',
    [('SearchResultContainer.add_result', CONT + ':add_result'),
     ('SearchResultContainer.minimization_results', CONT + ':minimization_results'),
     ('Controller.process_result', CTRL + ':process_result'),
     ('root_nelder_mead (success, value)', NM + ':root_nelder_mead')],
    ['result.nodes', 'result.rejected_results', 'result.minimization_results',
     'node.pos', 'node.value', 'result.dist_cutoff'],
)

prop(
    'C04', 'Each minimization is a faithful Nelder-Mead run',
    'Every minimization follows the Nelder-Mead method with coefficients 1 (reflection), 2 (expansion), 0.5 (contraction) and 0.5 (shrink) from its starting simplex: it makes the same evaluations and visits the same simplices as the textbook method, the recorded history being those simplices with their values, sorted. It stops at the first simplex that has all vertices within xtol and all values within ftol of the best one (status 0, success), exceeds the derivative cutoff (best value divided by the longest edge; status 3), or when the evaluation (1) or iteration (2) limit is reached, and the reported best position, value, number of iterations and number of evaluations are those of the run. The evaluation limit is overshot by less than one iteration.',
    ['inputs', 'configurations'],
    'All gap functions, starting simplices, dimensions, tolerances, limits and history settings.',
    'Tests only look at where the minimizations of two potentials end up; a wrong coefficient, comparison, stopping rule or evaluation count still converges there.',
    [('root_nelder_mead', NM + ':root_nelder_mead'),
     ('fprime estimate', NM + ':_get_fprime_estimate'),
     ('call counting', NM + ':wrap_function'),
     ('default tolerances', CTRL + ':__init__')],
    ['MinimizationResult attributes', 'calls of the gap function'],
)

prop(
    'C05', 'Every starting simplex is run exactly once or rightly skipped',
    'A search runs a minimization from every simplex of the initial mesh, and from every simplex of the refinement stencil (scaled with the distance cutoff) placed at every refined position, exactly once each, and from nothing else. A simplex is left out if and only if more of its vertices than allowed by simplex_check_cutoff are within the distance cutoff of nodes found before.',
    ['inputs', 'configurations', 'schedules'],
    'All gap functions, boxes, meshes, stencils, feature sizes, cutoff counts and numbers of parallel minimizations.',
    'Tests count the minimizations for one stencil and two meshes with a well-behaved potential, which does not show simplices that are dropped, repeated or wrongly skipped elsewhere.',
    [('Controller.create_tasks', CTRL + ':create_tasks'),
     ('Controller._check_simplex', CTRL + ':_check_simplex'),
     ('SimplexQueue', QUEUE + ':RunningQueue'),
     ('ObjectQueue.add_objects', QUEUE + ':add_objects'),
     ('_generate_mesh_simplices', MESH + ':_generate_mesh_simplices')],
    ['first simplex in the history of each result',
     'result.refined_results', 'calls of the gap function'],
)

prop(
    'C06', 'Refinement covers every node, without overlap, and terminates',
    'When a search with a refinement stencil finishes, every node in the box is within the distance cutoff of a position from which refinement was done, and refinement was only done from positions of nodes inside the box or within the distance cutoff of it. With rechecking enabled, each refined position had at most recheck_count_cutoff earlier refined positions within the distance cutoff. With one minimization at a time, a node in the box found in the initial mesh is only left out of the refinement if more than recheck_count_cutoff refined positions are within the distance cutoff of it, and never when rechecking is disabled. The search terminates after a bounded number of evaluations, also for nodal lines and surfaces that leave a non-periodic box; without a stencil, no refinement is done.',
    ['inputs', 'configurations', 'schedules'],
    'All gap functions with point-, line- and surface-like nodes, boxes, stencils, feature sizes, recheck settings and numbers of parallel minimizations.',
    'Tests check the coverage of four potentials with default settings; which positions were refined is never looked at.',
    [('Controller.process_result', CTRL + ':process_result'),
     ('Controller._check_pos_refinement', CTRL + ':_check_pos_refinement'),
     ('Controller._check_pos_in_box', CTRL + ':_check_pos_in_box'),
     ('Controller.create_tasks (recheck)', CTRL + ':create_tasks'),
     ('SearchResultContainer.set_refined', CONT + ':set_refined')],
    ['result.nodes', 'result.refined_results', 'calls of the gap function'],
)

prop(
    'C07', 'Parallel minimizations are bounded and independent of the schedule',
    'At no time are more than num_minimize_parallel minimizations in progress, and as long as there are enough starting simplices (of the initial mesh or from refinement), that many are. When minimizations do not depend on each other (no refinement, no fake potential, no skipping), the set of results does not depend on the order in which asynchronous gap evaluations complete or on the number of parallel minimizations, and in every case all started minimizations are in the result when the search returns.',
    ['schedules', 'inputs'],
    'All orders in which pending asynchronous evaluations can complete, all degrees of parallelism, gap functions and meshes.',
    'The tests only use synchronous gap functions (or one that raises at once), so only one order of completion is ever seen and no evaluation is ever pending.',
    [('Controller.create_tasks', CTRL + ':create_tasks'),
     ('Controller.run_simplex', CTRL + ':run_simplex'),
     ('RunningQueue.num_running', QUEUE + ':num_running'),
     ('parallel evaluation of the first simplex', NM + ':root_nelder_mead')],
    ['pending evaluations of the gap function', 'result.minimization_results'],
)

prop(
    'C08', 'A search resumed from any saved state loses and repeats no work',
    'Whenever the save file is loaded, each starting simplex queued so far is either covered by a saved result or still queued, never both and never neither. Resuming from that file (or from the state as initial_state) keeps all saved results without evaluating them again, minimizes the remaining ones, refines the pending positions, and ends with the same results as the uninterrupted search when minimizations are independent; resuming a finished search evaluates nothing. Pending positions stay in the saved state while the refinement is switched off. The saved results are judged by the thresholds and the box of the new search, force_initial_mesh queues the initial mesh again (and only then), a missing or unreadable file starts a new search or raises an error according to load_quiet, and giving both load and initial_state is an error.',
    ['crash_points', 'histories', 'configurations'],
    'All points at which a running search can be interrupted, all gap functions, meshes, refinement and parallelism settings, and chains of several interruptions.',
    'The tests only restart finished calculations, from a file that is written once at the end.',
    [('Controller.create_state', CTRL + ':create_state'),
     ('Controller.save', CTRL + ':save'),
     ('RunningQueue.objects', QUEUE + ':objects'),
     ('ControllerState.needs_saving', CSTATE + ':needs_saving'),
     ('SearchResultContainer.__init__', CONT + ':__init__')],
    ['the save file', 'calls of the gap function', 'result'],
)

prop(
    'C09', 'The save file is never incomplete and failed saves leave no trace',
    'At every instant during a search the save file is either absent (before the first save) or a complete, loadable state of this search (or the previous content of the file), never a partially written one. A save that fails, for whatever reason and at whatever point, leaves the previous save file unchanged and no other file behind in its folder, and the failure is reported to the caller. After a search that returned or raised an error, the file holds its final state. Apart from this final save, saves are at least save_delay seconds (5 by default) apart, and a changed state is saved that often while the search runs.',
    ['crash_points', 'fault_sequences'],
    'All points in time during a save, all points at which writing can fail (write errors, full disk, unserializable data, failing rename), for any state and previous file content.',
    'Tests write the file once without faults, and read it only afterwards.',
    [('Controller.save', CTRL + ':save'),
     ('io.save', IO + ':save'),
     ('Controller.create_tasks (PeriodicTask)', CTRL + ':create_tasks')],
    ['the save file and its folder'],
)

prop(
    'C10', 'Neighbour queries agree with a brute-force search',
    'For any position, the neighbour distances reported by a search result contain the distance to each node within the distance cutoff (other than nodes at exactly that position) exactly once, and nothing but true distances to nodes. The same holds for the distances to refined positions, where the position itself is not left out.',
    ['inputs', 'histories'],
    'All boxes (periodic or not, any aspect ratio), cutoffs (smaller or larger than the box), sets of nodes (inside, outside, or on the boundaries), and query positions.',
    'Tests check the cell index of a few points; the neighbour queries themselves are only used indirectly, for feature sizes much smaller than the box.',
    [('CellList.get_index', CELL + ':get_index'),
     ('CellList.get_neighbour_values', CELL + ':get_neighbour_values'),
     ('SearchResultContainer neighbour queries', CONT + ':get_neighbour_distance_iterator')],
    ['get_neighbour_distance_iterator', 'get_all_neighbour_distances',
     'get_refined_neighbour_distance_iterator'],
)

prop(
    'C11', 'Saving and loading preserves every result and state',
    'Loading a saved coordinate system, minimization result (plain or joined), search result, search state, identification result or nodal shape gives an equal object: the same positions, values, messages, histories, nodes, rejected and refined results, queued simplices and positions, dimensions (also none), shapes (also none), graphs and shape names. Copying or pickling results also gives equal objects, and files written by earlier versions can still be loaded.',
    ['inputs'],
    'All result and state objects: empty, with and without history, with any dimension, shape, and number of results.',
    'Tests load three fixed files and restart finished searches, without comparing any of the contents.',
    [('io.save / io.load', IO + ':save'),
     ('MinimizationResult', MINRES + ':MinimizationResult'),
     ('JoinedMinimizationResult', MINRES + ':JoinedMinimizationResult'),
     ('SearchResultContainer.HDF5_ATTRIBUTES', CONT + ':HDF5_ATTRIBUTES'),
     ('ControllerState', CSTATE + ':ControllerState'),
     ('ObjectQueue.to_hdf5', QUEUE + ':to_hdf5'),
     ('IdentificationResult', ICON + ':IdentificationResult'),
     ('NodalLine / NodalPoint', ISHAPE + ':NodalLine')],
    ['io.load(io.save(obj))'],
)

prop(
    'C12', 'Clusters are the groups of positions linked by the feature size',
    'Identification groups the distinct positions into clusters such that two positions are in the same cluster if and only if they are connected by a chain of positions in which neighbours are at most the feature size apart. The grouping does not depend on the order of the positions, on repeated positions, on moving positions by whole box lengths (periodic), or on the units of length.',
    ['inputs'],
    'All finite sets of positions, boxes (periodic or not) and feature sizes.',
    'Tests check the number of clusters of one sample file.',
    [('create_clusters', CLUST + ':create_clusters'),
     ('_create_graph', CLUST + ':_create_graph'),
     ('run_from_positions', IRUN + ':run_from_positions')],
    ['create_clusters', 'positions of the identification results'],
)

prop(
    'C13', 'The dimension of densely sampled features is identified',
    'For positions that densely sample a feature much larger than the feature size, or scatter over much less than the feature size around a single point, the identified dimension is that of the feature: 0 for points, 1 for lines, 2 for surfaces and 3 for volumes. This holds wherever in the box the feature lies (also across periodic boundaries), however it is oriented or curved, whatever the unit of length, and whichever random numbers are drawn (up to rare exceptions, far below one in a hundred draws, as it is estimated from a random sample).',
    ['inputs'],
    'All positions, orientations and shapes of densely sampled features in boxes of 1 to 3 dimensions, all units, all random draws and orders of positions.',
    'All tests which identify a line or surface need sample files that are missing; the point test has a single input, and draws are random.',
    [('calculate_dimension', DIMF + ':calculate_dimension'),
     ('_has_dimension', DIMF + ':_has_dimension'),
     ('_get_volume', DIMF + ':_get_volume')],
    ['IdentificationResult.dimension'],
)

prop(
    'C14', 'Line shapes are valid graphs on the cluster, closed or open as sampled',
    'The graph of an identified line consists of positions of its cluster, joins only positions at most the feature size apart, and has a vertex within the feature size of every position of the cluster; for the shortest path and dominating set methods it is connected. The degree count is the number of vertices of each degree other than two, and the shape is named a closed loop or an open line if and only if all degrees are two, or all but two vertices of degree one. Densely sampled closed curves (also those closed across a periodic boundary) are identified as a closed loop and open curves as an open line, by all methods.',
    ['inputs', 'configurations'],
    'All one-dimensional clusters in boxes of 1 to 3 dimensions, all line evaluation methods.',
    'The tests with lines need sample files that are missing or have one fixed set of positions, and only check that nothing is raised.',
    [('_evaluate_line', LINE + ':_evaluate_line'),
     ('shortest path', LSP + ':_evaluate_line_shortest_path'),
     ('ballistic', LBA + ':_BallisticLineImpl'),
     ('dominating set', LDS + ':_evaluate_line_dominating_set'),
     ('NodalLine.shape_name', ISHAPE + ':shape_name')],
    ['NodalLine.graph', 'NodalLine.degree_count', 'NodalLine.shape_name'],
)

prop(
    'C15', 'Identification handles any positions and accounts for all of them',
    'Identifying any finite set of positions (also empty, single, repeated, collinear or random ones) with any line evaluation method finishes without an error, and each distinct position is in exactly one identified object. Each object has a dimension between zero and that of the box, or none; it has a point shape for dimension zero, a line shape for dimension one, and no shape otherwise. Identifying a search result or search state is the same as identifying the positions of its nodes, by default with the feature size of the search.',
    ['inputs', 'configurations'],
    'All finite sets of positions in boxes of 1 to 3 dimensions, feature sizes, and line evaluation methods.',
    'Tests identify three fixed sets of positions; most of the sample files the tests were meant for are missing.',
    [('run / run_from_positions', IRUN + ':run'),
     ('calculate_dimension', DIMF + ':calculate_dimension'),
     ('evaluate_cluster', EVAL + ':evaluate_cluster'),
     ('create_clusters', CLUST + ':create_clusters')],
    ['identify.run', 'identify.run_from_positions'],
)

prop(
    'C16', 'The position of a nodal point is the periodic average of its cluster',
    'The position reported for an identified nodal point is the average of the positions in its cluster, taken across periodic boundaries by the shortest vectors, and lies inside the limits for periodic boxes. It does not depend on the order of the positions, or on moving any of them by whole box lengths.',
    ['inputs'],
    'All sets of positions with an extent of less than half the box, anywhere in boxes of any dimension and limits, periodic or not.',
    'The one test with a point does not look at its position, and does not cross a boundary.',
    [('CoordinateSystem.average', CS + ':average'),
     ('_evaluate_point', POINT + ':_evaluate_point')],
    ['NodalPoint.position', 'CoordinateSystem.average'],
)

prop(
    'C17', 'Errors in the gap function reach the caller and stop the search',
    'When the gap function raises an exception at any evaluation, the search raises that same exception to its caller, whether the function is synchronous or asynchronous, and whether the search is called from the main thread, another thread or a running event loop (there also for exceptions such as SystemExit); it never hangs or returns a result instead. The gap function is not evaluated any more afterwards, and the save file holds a state from which the search can be resumed to completion. The same holds when an asynchronous search is cancelled or runs into a timeout, and it leaves no task in the event loop. Inconsistent dimensions of the limits and mesh size are rejected with an error before anything is evaluated.',
    ['fault_sequences', 'schedules', 'configurations'],
    'All evaluations at which an exception can occur, all exception types, ways of calling the search and degrees of parallelism.',
    'One test has a function which always raises at the first evaluation, when called from the main thread.',
    [('Controller.create_tasks (exceptions)', CTRL + ':create_tasks'),
     ('Controller.run', CTRL + ':run'),
     ('run / _run_in_thread', RUN + ':_run_in_thread'),
     ('Controller.check_dimensions', CTRL + ':check_dimensions')],
    ['search.run', 'search.run_async', 'calls of the gap function',
     'the save file'],
)

prop(
    'C18', 'Search results do not depend on how the search is called',
    'The same search gives the same results when called from the main thread, from another thread, after the event loop of the thread was closed, from within a running event loop (through the synchronous or the asynchronous function), and with a synchronous or asynchronous gap function. Calling it again, or running several searches at the same time, gives the same results for each of them, and an event loop of the caller stays usable.',
    ['configurations', 'inputs', 'schedules'],
    'All search options and gap functions, in all calling contexts, in sequence and concurrently.',
    'Tests only call the synchronous function from the main thread without a running loop.',
    [('run', RUN + ':run'), ('run_async', RUN + ':run_async'),
     ('_run_in_thread', RUN + ':_run_in_thread'),
     ('Controller', CTRL + ':Controller')],
    ['search.run', 'search.run_async'],
)

prop(
    'C19', 'Plots show exactly the given results',
    'The plot of search points shows each node once at its position, colored by its value, and no other result; simplex and stencil plots draw exactly the edges of the simplices, with the given line settings, and the stencil plot marks the origin and draws the unit circle or sphere unless they are switched off. The plot of an identification result draws each point shape at its position, each edge of a line graph exactly once, except for those longer than twice the feature size (which cross a periodic boundary), and all positions of objects without a shape, with one color for each object, which differs from that of the others for up to ten objects. Plots are drawn on the given axes, or else on those of a new figure, with the limits of the box, in two and three dimensions.',
    ['inputs'],
    'All search and identification results in two and three dimensions.',
    'The plot tests compare images of one existing sample (and comparing is switched off), so nothing looks at what is drawn.',
    [('points, simplices, stencil', SPLOT + ':points'),
     ('result, nodal_point, nodal_line', IPLOT + ':result'),
     ('_get_graph_paths', IPLOT + ':_get_graph_paths'),
     ('_setup_plot', CPLOT + ':_setup_plot')],
    ['artists on the matplotlib axes'],
)

prop(
    'C20', 'Initial meshes and refinement stencils have the documented geometry',
    'The initial mesh has one simplex for each point of a regular grid over the box with the given number of points per dimension, including both limits when the box is not periodic and leaving out the upper one when periodic; each simplex extends from its grid point by half of (box size / number of points) along each axis. A mesh stencil is such a (non-periodic) mesh over the cube of the given half-width, without the simplex at the origin. The automatic stencil is the 5 point circle stencil in two, the 30 point sphere stencil in three, and a mesh stencil with 3 points per axis in other dimensions; circle and sphere stencils of n points consist of n regular simplices of the same size, each with one vertex towards the origin, evenly spread around it, and the automatic ones have no vertex closer to it than 1.',
    ['inputs', 'configurations'],
    'All dimensions, limits, mesh sizes, stencil sizes, and multipliers.',
    'Tests use meshes only through the searches, which converge for almost any mesh, and stencils are not looked at.',
    [('_generate_mesh_simplices', MESH + ':_generate_mesh_simplices'),
     ('get_mesh_stencil', STENCIL + ':get_mesh_stencil'),
     ('get_auto_stencil', STENCIL + ':get_auto_stencil'),
     ('get_circle_stencil', STENCIL + ':get_circle_stencil'),
     ('get_sphere_stencil', STENCIL + ':get_sphere_stencil')],
    ['first simplex in the history of each result',
     'search.refinement_stencil functions'],
)

prop(
    'C21', 'The fake potential repels from known nodes but never alters results',
    'With the fake potential enabled, every minimization has a first stage for which positions within the distance cutoff of nodes found before have an infinite value and all others the value of the gap function, followed by a second stage with the gap function alone which starts from the final simplex of the first, enlarged by a factor of 1.5 about its best vertex. The first stage stops regardless of the spread in function values; position, value, success and status are those of the second stage, and the number of evaluations and iterations and the histories are those of both stages together. With the fake potential disabled, there is a single stage.',
    ['inputs', 'configurations', 'histories'],
    'All gap functions, boxes, feature sizes, meshes and stencils, for any set of previously found nodes.',
    'The tests only check that the nodes are found with and without the fake potential.',
    [('FakePotential', FAKE + ':FakePotential'),
     ('run_minimization', MRUN + ':run_minimization'),
     ('add_fake_potential', MRUN + ':add_fake_potential'),
     ('JoinedMinimizationResult', MINRES + ':JoinedMinimizationResult')],
    ['result.ancestor', 'result.child', 'calls of the gap function'],
)

prop(
    'C22', 'Searching, identifying and plotting leave their inputs unchanged',
    'Running a search does not modify the limits, mesh size, stencil, minimization options or initial state passed to it, so that the same inputs can be used again with the same outcome. Identifying or plotting a result, and querying a coordinate system, does not modify the result, positions or coordinate system given.',
    ['inputs', 'histories'],
    'All inputs of the public functions, used repeatedly.',
    'No test uses an input again, or looks at it after the call.',
    [('Controller.__init__', CTRL + ':__init__'),
     ('Controller.create_state', CTRL + ':create_state'),
     ('run_minimization', MRUN + ':run_minimization'),
     ('run_from_positions', IRUN + ':run_from_positions'),
     ('nodal_line (plot)', IPLOT + ':nodal_line'),
     ('CoordinateSystem', CS + ':CoordinateSystem')],
    ['arguments of the public functions'],
)

prop(
    'C23', 'Isolated nodes are found by the search and identified as points',
    'When a gap function has isolated nodes which it approaches like the distance (or its square) to the nearest one, and the initial mesh has a starting point in the basin of each of them (in one dimension, where all minimizations are on the same grid: and the gap changes by at most the threshold within 1% of the feature size), the search finds each of them to within the feature size, all reported nodes are close to one of them, and identifying the result with default settings gives exactly one nodal point for each, at its position.',
    ['inputs', 'configurations'],
    'All positions of nodes (also close to and across periodic boundaries), boxes of 1 to 3 dimensions, feature sizes and search options.',
    'Tests check two fixed sets of nodes in the unit cube (and the scoring fixture is not installed, so that most do not run); search and identification are never combined.',
    [('search.run', RUN + ':run'), ('Controller', CTRL + ':Controller'),
     ('root_nelder_mead', NM + ':root_nelder_mead'),
     ('identify.run', IRUN + ':run')],
    ['search.run, identify.run'],
)

prop(
    'C24', 'Closed nodal lines are covered by the search and identified as loops',
    'When the nodes of a gap function form a smooth closed line which is at least twelve times as long as the feature size (also one that is closed across a periodic boundary), the default refinement with the fake potential enabled, starting from a coarse mesh, covers it: every point of the line is closer than the feature size to a node, and all nodes lie on the line. Identifying the result gives a single object of dimension one which is a closed loop with the ballistic and dominating set methods, provided that neighbouring nodes on the line are closer than 0.8 feature sizes.',
    ['inputs', 'configurations'],
    'All positions, orientations and sizes of closed lines which are long compared to the feature size, in two and three dimensions.',
    'The tests for nodal lines need a scoring fixture which is not installed, have fixed lines, and do not combine search and identification.',
    [('Controller.process_result', CTRL + ':process_result'),
     ('get_auto_stencil', STENCIL + ':get_auto_stencil'),
     ('ballistic', LBA + ':_BallisticLineImpl'),
     ('identify.run', IRUN + ':run')],
    ['search.run, identify.run'],
)

prop(
    'C25', 'Results do not depend on the units of length and gap',
    'Multiplying all lengths (limits, feature size and the argument scale of the gap function) by a power of two, or all gap values and the gap threshold by a power of two, gives the same search up to that scaling: the same minimizations with the same number of evaluations and iterations, scaled positions and values, the same nodes and refined positions, and the same clusters.',
    ['inputs', 'configurations'],
    'All gap functions, boxes, thresholds and search options with default tolerances, and scale factors between 2^-12 and 2^12.',
    'The tests use boxes of size one or two and default units throughout.',
    [('default tolerances', CTRL + ':__init__'),
     ('root_nelder_mead', NM + ':root_nelder_mead'),
     ('SearchResultContainer cells', CONT + ':__init__'),
     ('CoordinateSystem', CS + ':CoordinateSystem'),
     ('create_clusters', CLUST + ':create_clusters')],
    ['search.run, create_clusters'],
)

prop(
    'C26', 'Nodal surfaces, areas and several features are found and told apart',
    'For gap functions that are (up to a factor of two) the distance to one or two known features - isolated points, circles, lines across a periodic boundary, discs, planes and spheres, whose extent and distance are large enough compared to the feature size - a search with the default refinement covers each feature: every position of it has a node within the feature size, and all nodes are at the features up to the gap threshold. The identification gives exactly one object for each feature, with its dimension, a point or line shape for those of dimension zero and one and none for others. This holds at any place in the box, also across periodic boundaries, in two and three dimensions, and for any unit of length.',
    ['inputs', 'configurations'],
    'All positions, orientations and sizes of one or two features in periodic and open boxes of two or three dimensions.',
    'No test looks at whether the feature is covered, and the tests which identify lines or surfaces need sample files that are missing.',
    [('Controller', CTRL + ':create_tasks'),
     ('get_auto_stencil', STENCIL + ':get_auto_stencil'),
     ('create_clusters', CLUST + ':create_clusters'),
     ('calculate_dimension', DIMF + ':calculate_dimension'),
     ('evaluate_cluster', 'nodefinder/identify/_evaluate/_run.py:evaluate_cluster')],
    ['search.run, identify.run'],
)

prop(
    'C27', 'Options which are left out have their documented defaults',
    'A search in which any options are left out gives exactly the same evaluations, results and refined positions as the search with the documented defaults given explicitly: the periodic unit cube, a mesh of 10 points per axis, the automatic stencil, a gap threshold of 1e-6, a feature size of 2e-3, no fake potential, 50 minimizations in parallel, checking positions and simplices again with cutoffs of zero, no initial state, save file or loading, ignoring a save file that can not be loaded, and no additional initial mesh when resuming; minimizations stop at changes of 0.05 times the gap threshold and 0.03 times the cutoff distance (a third of the feature size), after 200 evaluations or iterations per dimension, have no derivative cutoff and keep their history. Nothing is written to disk without a save file. Coordinate systems are periodic by default, mesh stencils have a half-width of 2.5, and the identification uses the feature size of the search and the ballistic method (the shortest path method for plain positions).',
    ['configurations'],
    'All subsets of the options of search.run, of the minimization and of the identification, with all values of the other ones.',
    'The tests give most options explicitly, and would pass with almost any default.',
    [('run_async', 'nodefinder/search/_run.py:run_async'),
     ('Controller', CTRL + ':__init__'),
     ('root_nelder_mead', NM + ':root_nelder_mead'),
     ('identify.run', 'nodefinder/identify/_run.py:run'),
     ('CoordinateSystem', CS + ':CoordinateSystem')],
    ['search.run, identify.run, run_from_positions'],
)

if __name__ == '__main__':
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    path = os.path.join(
        os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'
    )
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
