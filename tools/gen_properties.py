#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing the list below)."""
import json, os

S = 'nodefinder/search/'
I = 'nodefinder/identify/'
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', 'Distances and connecting vectors are minimal over all periodic images',
     '''For any two positions (or a position and an array of positions), inside or outside the limits, the distance
     reported by a coordinate system is the Euclidean norm of the difference for an open box and the minimum of that
     norm over all periodic images for a periodic one; it is symmetric and unchanged when a position is moved by a
     multiple of the box size. The connecting vector leads from the first position to an image of the second, and its
     length is that distance. Limits given in either order describe the same box.''',
     ['inputs', 'configurations'],
     'all pairs of positions, for all limits (any order, sign, scale, anisotropy), one to three dimensions, both boundary conditions, single and batched calls',
     'The existing tests call distance / connecting_vector on a few dozen hand-picked pairs of unit boxes, and those test modules are among the ones that do not run reliably here.',
     ['nodefinder/coordinate_system.py'],
     [('CoordinateSystem.distance / connecting_vector', 'nodefinder/coordinate_system.py')])

prop('C02', 'Mapping into the box, fractional coordinates and averages are consistent',
     '''Mapping a position into a periodic box yields an image of that position inside the limits and mapping twice changes
     nothing; in an open box it is the identity, and converting to fractional coordinates and back gives the same
     position up to periodic images (fractional coordinates of a periodic box lie in the unit cell). The average of
     positions that lie close together is, in a periodic box, the image inside the limits of the ordinary mean of the
     nearest images, independent of the order of the positions and of which images were given; in an open box it is the
     ordinary mean.''',
     ['inputs', 'configurations'],
     'all positions and position lists (spread below half of the box for periodic averages), all limits, one to three dimensions',
     'Existing tests use a few random points in fixed boxes; boundary wrap-around, reversed, shifted and anisotropic boxes and image dependence of the mean are not reached.',
     ['nodefinder/coordinate_system.py'],
     [('CoordinateSystem.get_frac / get_pos / normalize_position / average', 'nodefinder/coordinate_system.py')])

prop('C03', 'Neighbour queries find every node in range exactly once',
     '''After any sequence of additions to a search result, querying the neighbours of any position returns, for every stored
     node within the cutoff distance, its distance exactly once, across cell and periodic boundaries and for
     positions outside the limits; anything else it returns is the true distance of some other stored node. The same
     holds for positions marked as refined.''',
     ['histories', 'inputs', 'configurations'],
     'all sequences of add / mark-refined / query operations, all box shapes, cutoffs (smaller, larger than the box, zero), boundary conditions, positions on and around cell boundaries',
     'Two unit tests check the cell index of single points; no test compares lookups with a brute-force neighbour search, and the cutoff/box ratios that give one or two cells are never used.',
     [S + 'result/_cell_list.py', S + 'result/_search_result_container.py'],
     [('cell list with periodic neighbour cells', S + 'result/_cell_list.py'),
      ('neighbour distance queries', S + 'result/_search_result_container.py')])

prop('C04', 'Every result is kept once and classified by success and gap threshold',
     '''A minimization result is listed as a node exactly if it succeeded and its value is at most the gap threshold;
     otherwise it is listed as rejected. Every result added appears exactly once among all results, with its position mapped into
     the limits of a periodic box, and adding never disturbs results already stored. Rebuilding a container from all its results with the same or
     other thresholds re-classifies them by the same rule, without loss or duplication.''',
     ['histories', 'inputs', 'configurations'],
     'all sequences of results over (success x value around the threshold incl. inf/equal x position incl. duplicates, boundary, outside), rebuilds with other thresholds',
     'The tests only look at nodes of full searches of smooth functions, where neither equality with the threshold, failed minimizations nor re-classification occur.',
     [S + 'result/_search_result_container.py', S + '_controller.py'],
     [('add_result and constructor', S + 'result/_search_result_container.py'),
      ('state reconstruction with current thresholds', S + '_controller.py')])

prop('C05', 'A search reports only what was actually evaluated',
     '''For every starting simplex, the search reports one result whose value is the value the potential returned at the
     reported position and the minimum over everything evaluated for it (with the fake potential: in its second stage); the reported number of evaluations is the number of calls
     made. The first entry of the simplex history is the starting simplex, the last one contains the reported position, and
     every recorded function value is the potential's value at the recorded vertex; the result depends only on the values returned, not on whether the potential is a function or a coroutine.''',
     ['inputs', 'fault_sequences'],
     'all potentials: every assignment of values from an adversarial alphabet (ties, negative, inf, huge ratios) to the successively visited points, in one to three dimensions',
     'Tests only use a handful of smooth potentials, and compare the final node set with loose tolerances.',
     [S + '_minimization/_nelder_mead.py', S + '_minimization/_run.py', S + '_controller.py'],
     [('root_nelder_mead bookkeeping', S + '_minimization/_nelder_mead.py')])

prop('C06', 'The minimization follows Nelder-Mead and its stopping options exactly',
     '''Each minimization proposes and accepts points exactly as the Nelder-Mead method with the standard coefficients
     (reflection 1, expansion 2, contraction and shrink 1/2) prescribes for the values returned. It stops exactly when the
     simplex extent and value spread are within the tolerances (success), when the given or default evaluation or iteration
     limit is reached, or when the derivative estimate exceeds its cutoff (failure), with the status, message, iteration count and
     history belonging to that outcome; without history recording only the last simplex is kept. Tolerances which are not given explicitly follow from gap threshold and feature size.''',
     ['inputs', 'configurations'],
     'all answer sequences over a value alphabet (all comparison patterns incl. ties) up to a depth, times all combinations of the stopping options',
     'No test examines the minimizer itself; searches of smooth potentials converge in the same way for most deviations of the algorithm.',
     [S + '_minimization/_nelder_mead.py', S + '_minimization/_run.py', S + '_controller.py'],
     [('root_nelder_mead', S + '_minimization/_nelder_mead.py'), ('default tolerances', S + '_controller.py')])

prop('C07', 'With the fake potential, known nodes repel but results stay true',
     '''With the fake potential enabled, the first stage of each minimization treats every point closer than the cutoff distance to a
     known node as infinitely high and all others as unchanged, and the second stage starts from the first stage's final
     simplex, enlarged by half about its best vertex, and uses only the true potential. The first stage ends successfully once the extent of its simplex is within the tolerance, whatever the spread of the values. Reported position and value, and
     hence which results count as nodes, come from the true potential; evaluation and iteration counts and histories cover both stages.''',
     ['inputs', 'histories', 'configurations'],
     'all answer sequences over a value alphabet, all placements of known nodes relative to the starting simplex (incl. across the periodic boundary, nodes found during the run), all dimensions 1-3',
     'The option is only used by full searches compared with loose tolerances, which succeed just as well when the potential is wrong or absent.',
     [S + '_fake_potential.py', S + '_minimization/_run.py', S + 'result/_minimization.py', S + '_controller.py'],
     [('FakePotential', S + '_fake_potential.py'), ('two-step minimization', S + '_minimization/_run.py'),
      ('joined results', S + 'result/_minimization.py')])

prop('C08', 'Bounded, work-conserving parallelism; each start evaluated exactly once',
     '''In every order in which evaluations may complete, at most the configured number of minimizations is in progress, and
     as long as unstarted work remains and fewer are in progress, another one is started. Every starting simplex is
     minimized exactly once (duplicates included once) unless skipped because nodes are already known near it, none is lost, and the search ends if and only if all of
     them are finished and no refinement is outstanding.''',
     ['schedules', 'configurations'],
     'all completion orders of concurrent evaluations (one at a time and several at once), parallel limits, mesh sizes, refinement outcomes',
     'The tests run potentials that return immediately, so essentially one deterministic completion order is seen, and only the final node set is compared.',
     [S + '_controller.py', S + '_queue.py'],
     [('create_tasks loop', S + '_controller.py'), ('queued / running / finished bookkeeping', S + '_queue.py')])

prop('C09', 'Refinement covers every node and refines no neighbourhood twice',
     '''When a search with refinement ends, every node found lies within the cutoff distance of (or is) a node which was refined, and, with
     position re-checking and no tolerated neighbours, refined positions are at least the cutoff distance apart. Only node
     positions are refined; each simplex of the stencil, scaled with the cutoff distance and shifted to the refined position, is minimized, unless already queued before
     or skipped because nodes are already known near its vertices. With refinement switched off nothing is refined.''',
     ['schedules', 'inputs', 'configurations'],
     'all completion orders, all assignments of node / no-node outcomes to visited simplices, stencils, feature sizes, re-check options, boundary conditions',
     'Tests compare final nodes of smooth potentials with loose tolerances; missing or double refinement is invisible there.',
     [S + '_controller.py', S + 'result/_search_result_container.py'],
     [('process_result / create_tasks / _check_pos_refinement', S + '_controller.py')])

prop('C10', 'Skip and re-check rules decide exactly as documented',
     '''A queued simplex is skipped if and only if, when it is about to be started, more of its vertices than the allowed number lie
     closer than the cutoff distance to a known node. A queued position is refined if and only if, when
     its turn comes, re-checking is off or at most the allowed number of already refined positions are closer than the cutoff; a node is queued for refinement if and only if
     no refined position is closer than the cutoff when it is found. The cutoff distance is a third of the feature size, and
     distances respect periodicity.''',
     ['histories', 'inputs', 'configurations'],
     'all values of the three options, all placements of nodes and simplices on a lattice around the cutoff (incl. exactly at it and across the boundary), all completion orders',
     'No test sets any of these options or looks at what was skipped.',
     [S + '_controller.py'],
     [('_check_simplex / _check_pos_refinement', S + '_controller.py')])

prop('C11', 'A search stopped at any point resumes without losing or repeating work',
     '''For every point at which a search is stopped, cancelled or fails, the save file (once written) holds a state from which resuming completes the
     search: all results in the file are kept, simplices finished in it are not evaluated again (unless a later refinement produces just the same one), everything
     else that was queued or in progress, including pending refinements, is. The periodic save, about every save delay while the search runs, includes all results obtained so far, a
     failing evaluation leaves its simplex queued in the file, and resuming a completed search
     evaluates nothing and returns the same results. A search state reports that it needs saving after every change.''',
     ['crash_points', 'schedules', 'fault_sequences', 'histories'],
     'all stop points of all schedules (between any two completions / saves), failures at any evaluation, repeated stop-resume chains',
     'One test stops at a fixed number of evaluations and checks only that the restarted run finishes; what is in the file and what is repeated is not examined.',
     [S + '_controller.py', S + '_queue.py', S + 'result/_controller_state.py'],
     [('save via periodic task and on exit', S + '_controller.py'), ('running simplices are stored as queued', S + '_queue.py'),
      ('needs_saving flags', S + 'result/_controller_state.py')])

prop('C12', 'Saving is atomic: the file is the old or the new complete state',
     '''Whatever file system operation of a save the process is killed in or fails in (including partial writes), the
     save file afterwards is absent if it was never written, or loads as a complete state which is either the previously
     saved or the new one. A failing save
     leaves no temporary files behind and does not prevent later saves: the search either ends with its final state in the file, or with an error. No other files are touched.''',
     ['crash_points', 'fault_sequences'],
     'all file system operations of all saves of a run x (kill before, kill after, torn write then kill, error return)',
     'Tests never interrupt or fail a save.',
     [S + '_controller.py'],
     [('temporary file and rename in Controller.save', S + '_controller.py')])

prop('C13', 'Search results and states survive saving and loading unchanged',
     '''Saving and loading a search result or a complete search state reproduces coordinate system, thresholds, all
     results with all their attributes (including two-stage results, histories and messages), which of them are nodes,
     the refined positions, and the queued simplices and positions in order with those in progress first. Saving the loaded
     object again changes nothing, and neighbour queries give the same answers.''',
     ['inputs', 'histories', 'configurations'],
     'all states reachable by short operation sequences, all result kinds and special values, dimensions 1-3, empty and non-empty parts',
     'Round trips are only exercised as part of restarts, where lost attributes, wrong order or wrong types go unnoticed.',
     [S + 'result/_minimization.py', S + 'result/_search_result_container.py', S + 'result/_controller_state.py', S + '_queue.py', 'nodefinder/coordinate_system.py', 'nodefinder/io.py'],
     [('to_hdf5 / from_hdf5 of all search classes', S + 'result')])

prop('C14', 'Loading and initial-state options select the right starting point',
     '''With loading enabled, a search continues from the state in the save file if it can be read; otherwise it starts from
     the initial mesh if loading is quiet and raises the read error if not; giving an initial state together with loading is an error.
     An explicit state (from the file or an argument) replaces the initial mesh unless the mesh is forced, in which case both are used;
     thresholds, limits and feature size of the new call apply, and the given state object is not used up, extended or changed. Without loading, an existing save file does not influence the search.''',
     ['configurations', 'histories', 'inputs'],
     'all combinations of load, load_quiet, initial_state, force_initial_mesh, refinement, changed thresholds / limits / boundary conditions and file conditions (missing, valid, empty, garbage, truncated at every length class)',
     'Tests use two of these combinations.',
     [S + '_controller.py', 'nodefinder/io.py'],
     [('Controller.create_state', S + '_controller.py')])

prop('C15', 'The synchronous entry point returns or raises in every calling context',
     '''Calling the synchronous search from a plain thread, without or with an idle event loop, after `asyncio.run` has been used, from inside a
     running event loop or from within a potential of another search returns the same result as the asynchronous one, for synchronous and
     asynchronous potentials alike. If the potential raises on its k-th call, for any k and any kind of exception, the caller receives that exception; the
     call never hangs, and afterwards a new search in the same context works.''',
     ['configurations', 'fault_sequences', 'schedules'],
     'all calling contexts x kinds of potential x exception kinds x failing call index x parallel limits',
     'Tests call it from a plain thread and from one running loop with potentials that do not fail.',
     [S + '_run.py', S + '_controller.py'],
     [('run / _run_in_thread', S + '_run.py'), ('exception retrieval in create_tasks', S + '_controller.py')])

prop('C16', 'The initial mesh is the regular grid over the box',
     '''The starting simplices of a fresh search are anchored exactly at the points of the regular grid with the given number of points per
     dimension over the limits, with both ends included for an open box and the upper end excluded for a periodic one, one simplex per grid point, each with axis-aligned
     edges of half the box size divided by the number of points. A single number means that number in every dimension, and a mesh
     size whose dimension differs from that of the limits is rejected with ValueError before anything is evaluated.''',
     ['configurations', 'inputs'],
     'all mesh sizes (scalar and per dimension), limits, dimensions 1-3, boundary conditions',
     'Only the inconsistent-dimension error is tested; a wrong mesh still finds the nodes of smooth potentials.',
     [S + '_mesh_helper.py', S + '_controller.py'],
     [('_generate_mesh_simplices / check_dimensions', S + '_mesh_helper.py')])

prop('C17', 'Refinement stencils are valid: right shape, non-degenerate, surrounding',
     '''Every stencil offered (mesh stencils of any size and extent, and the automatic one for every dimension) is an array of non-degenerate
     simplices of the right dimension. No vertex of an automatic stencil is closer to the origin than the unit distance, and its simplices
     surround the origin in every direction; in two and three dimensions they are congruent and at equal distance from the origin; mesh stencils are anchored at the regular grid over the symmetric box without its centre. Around an isolated node, a search minimizes each simplex of the stencil exactly once.''',
     ['configurations', 'inputs'],
     'all mesh sizes and multipliers, the automatic stencil in dimensions 1-3, node positions and boundary conditions',
     'The stencil test only plots them; searches of smooth potentials succeed with wrong stencils.',
     [S + 'refinement_stencil.py', S + '_mesh_helper.py', S + '_controller.py'],
     [('get_mesh_stencil / get_auto_stencil', S + 'refinement_stencil.py')])

prop('C18', 'Clusters are the connected components of the within-feature-size graph',
     '''Identification groups positions so that two of them are in one cluster exactly if they are linked by a
     chain of positions with successive (periodic) distances of at most the feature size. Every distinct position is in exactly
     one cluster, and the clusters do not depend on order, repetition or, in a periodic box, choice of origin.''',
     ['inputs', 'configurations'],
     'all position sets on a lattice up to a size, all orders and duplications, feature sizes at, below and above lattice distances, boundary conditions, dimensions 1-3',
     'Tests only check the number of clusters for stored samples, and only one of them runs reliably.',
     [I + '_cluster.py', I + '_run.py'],
     [('create_clusters / _create_graph', I + '_cluster.py')])

prop('C19', 'The identified dimension never exceeds what the points span and is stable',
     '''For every outcome of the internal random sampling, the identified dimension of a cluster is at most the dimension of the box and of
     the affine span of its (unwrapped) positions (no two linked ones being exactly half a periodic box apart), and a single position has dimension zero. Well-sampled (at least three points per direction, feature size 1.1 to 2.6 times the
     spacing) straight segments, filled planar and filled spatial lattice patches, anywhere in the box and across periodic boundaries, get dimension one, two and three, tight
     groups much smaller than the feature size dimension zero.''',
     ['inputs', 'configurations', 'schedules'],
     'all small lattice clusters; canonical shapes over orientation, spacing, position; all (bounded deviations of) random choices',
     'Tests use stored samples of eight shapes with whatever random choices happen, and only outcomes of a few of them.',
     [I + '_dimension.py'],
     [('calculate_dimension and volume comparison', I + '_dimension.py')])

prop('C20', 'Identified lines are made of cluster points and short links and cover it',
     '''For every cluster of dimension one and each line method, identification yields without error a line whose nodes are positions of
     that cluster, whose links connect positions at most the feature size apart, and such that every position of the cluster is a node or within the feature size
     of a node. With the shortest-path and dominating-set methods the line is connected. The reported degree count and shape name are those of the reported graph.''',
     ['inputs', 'configurations'],
     'all connected lattice clusters up to a size plus curves, crossings and trees, feature sizes, boundary conditions, the three methods',
     'Tests compare images and degree counts for stored samples and none of them runs reliably.',
     [I + '_evaluate/_line/_ballistic.py', I + '_evaluate/_line/_shortest_path.py', I + '_evaluate/_line/_dominating_set.py', I + '_evaluate/_line/_run.py', I + 'result/_shapes.py'],
     [('line evaluation', I + '_evaluate/_line')])

prop('C21', 'Straight lines, rings through the boundary and circles get the right shape',
     '''A uniformly sampled straight line ending inside the box, also one which bends by at most 60 degrees or an arc of a circle, is identified as one object of dimension one with the shape of an open line whose
     ends are within the feature size of the true ends, and one which closes through a periodic boundary, or a sufficiently sampled circle,
     as a closed loop. This holds for any direction, place, number of points and order of
     the points and also when an open line crosses a periodic boundary. Three or four lines which start from one point are never reported as an open line or a closed loop. Closed loops need at least 5 (ring, ballistic), 12 (ring, other methods, more
     where the feature size is at least twice the spacing) or 34 (circle, feature size at most 2.2 spacings) points, arcs 34, and lines a length of more than twice the feature size for methods other than ballistic (feature size at most 2.5 spacings with shortest_path, at most 2.2 for bent lines).''',
    ['inputs', 'configurations'],
     'all numbers of points, spacings relative to the feature size, axes, offsets, box shapes and permutation classes of the input order, per line method in its validity range',
     'Tests check stored samples of a few shapes, mainly as images, and none of them runs reliably.',
     [I + '_evaluate/_line', I + '_dimension.py', I + '_cluster.py', I + 'result/_shapes.py'],
     [('line evaluation', I + '_evaluate/_line')])

prop('C22', 'Identification accounts for every node of the search exactly once',
     '''Identifying a search result or a search state gives objects whose positions are exactly the distinct node positions, each in one object;
     rejected results do not appear. When no feature size is given, the one of the search is used, and the container reports the coordinate system and feature size used. An object of dimension zero has a point shape at the
     (periodic) mean of its positions inside the limits, one of dimension one a line, and others have no shape. The given search result or positions are left unchanged.''',
     ['inputs', 'configurations', 'histories'],
     'all small node / rejected configurations, search results and states, feature sizes explicit or default, entry points, boundary conditions',
     'Tests of this path use stored samples and mostly do not run here.',
     [I + '_run.py', I + '_evaluate/_run.py', I + '_evaluate/_point.py', I + 'result/_containers.py'],
     [('run / run_from_positions', I + '_run.py'), ('evaluate_cluster', I + '_evaluate/_run.py')])

prop('C23', 'Identification results survive saving and loading unchanged',
     '''Saving and loading an identification result reproduces the coordinate system, feature size, number and order of
     objects, each object's positions, dimension (including an undetermined one) and shape: point positions, line nodes and links, degree count and shape name.
     Saving the loaded result again changes nothing, and files written by earlier versions (with the dimension stored directly and positions as a list of points) still load.''',
     ['inputs', 'configurations'],
     'all containers over the alphabet of dimensions x shapes (none, points, lines incl. single-node and unlinked ones) x position lists up to a length, box dimensions 1-3',
     'No reliable test loads an identification result.',
     [I + 'result/_containers.py', I + 'result/_shapes.py'],
     [('to_hdf5 / from_hdf5', I + 'result')])

prop('C24', 'Search plots show exactly the nodes, simplices and stencils',
     '''Plotting the points of a search result in two or three dimensions draws every node once at its position and coloured by its value, and nothing
     else; plotting simplices draws each edge of every simplex in the history of each given node once; plotting a
     stencil draws each of its edges once, the origin, and the unit circle or sphere as requested. Axes limits follow the box, and a given axes object is used instead of a new figure. What is plotted is left unchanged.''',
     ['inputs', 'configurations'],
     'all small node sets, histories and stencils over a lattice, both dimensions, with and without given axes and options',
     'The plot tests only check that nothing raises (image comparison is off).',
     [S + 'plot.py', 'nodefinder/_common_plot.py'],
     [('points / simplices / stencil', S + 'plot.py')])

prop('C25', 'Identification plots draw every object, every link once, cut at boundaries',
     '''Plotting an identification result draws each object in its own colour: a point shape as a marker at its position, an object without
     shape as markers at its positions, and a line shape as paths which together contain each of its links exactly
     once, except that links which cross a periodic boundary (end points more than twice the feature size apart) are cut, so that nothing but links is drawn; a line without links is drawn
     as markers. The plotted objects are left unchanged.''',
     ['inputs', 'configurations'],
     'all graphs up to a number of nodes (incl. cycles, branching, several components, boundary-crossing links), mixed containers, both dimensions',
     'The plot tests only check that nothing raises (image comparison is off).',
     [I + 'plot.py', 'nodefinder/_common_plot.py'],
     [('result / nodal_point / nodal_line', I + 'plot.py')])

prop('C26', 'Work queues hand out each distinct object once, in order, across reloads',
     '''A work queue hands out each distinct object exactly once in order of first addition, no matter how often and when it is added again;
     simplices that differ only in the order of their vertices are the same. It reports as finished exactly
     when nothing is waiting or in progress, and as changed whenever an object was added, finished or (a position) handed out since it was last saved. A queue stored at any time and reloaded
     hands out those in progress first and then the waiting ones in order, and nothing that was finished.''',
     ['histories', 'inputs'],
     'all operation sequences (add single / several / duplicate / permuted, pop, finish, store and reload) up to a depth over a small set of objects',
     'The queue is only exercised indirectly by full searches, in which most add orders and duplicates do not occur.',
     [S + '_queue.py'],
     [('ObjectQueue / RunningQueue', S + '_queue.py')])

prop('C27', 'Searches are independent of each other and leave nothing behind',
     '''Searches which run concurrently in one event loop, or one after the other, each behave exactly as if they ran alone, and leave
     their arguments (limits, mesh, stencil, options, given state) unchanged. When a search has ended, by completing, failing (even if
     only one of several evaluations in progress fails) or being cancelled, none of its evaluations is in progress (even if they take time to end) or begins anymore. A failure or
     cancellation is reported by the search concerned only.''',
     ['schedules', 'fault_sequences', 'configurations'],
     'all interleavings of the completions of two searches up to a bound, with a failure or cancellation at any point of one of them; repeated searches',
     'The tests run one search at a time and never cancel one; failures of the potential do not occur.',
     [S + '_controller.py', S + '_run.py', S + '_minimization/_nelder_mead.py'],
     [('minimizations end with the search', S + '_controller.py'), ('evaluations of the initial simplex', S + '_minimization/_nelder_mead.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        n = p['statement'].count('. ') + 1
        if n > 3:
            print(p['id'], 'sentences', n)
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
