"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, cant, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': cant,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(obs), 'hook_needed': hook}})


GT = 'include/pf-applications/grain_tracker/'
TI = 'include/pf-applications/time_integration/'
LA = 'include/pf-applications/lac/'
SI = 'applications/sintering/include/pf-applications/sintering/'
NUM = 'include/pf-applications/numerics/'
GRID = 'include/pf-applications/grid/'
BASE = 'include/pf-applications/base/'

prop('C01', 'Grain identities survive re-detection one-to-one',
     'When a new set of detected grains is matched to the previous one, a grain inherits an old identity only from an '
     'old grain that had the same order parameter and that has a segment for which it is the nearest candidate within that segment\'s reach; '
     'no old identity is handed to two grains, and a match between two isolated neighbours is never lost. The outcome is '
     'independent of the order in which grains and segments are listed, up to exact ties.',
     ['inputs', 'histories'], 'all pairs of detections: any number of grains, segments, radii, positions, order parameters, ties, splits, merges',
     'The 14 transfer tests fix 14 hand-made configurations; the guarantee quantifies over all configurations of grains.',
     [GT + 'tracking.h'], [('transfer_grain_ids', GT + 'tracking.h')], obs=['returned map new id -> old id'])

prop('C02', 'Remapping moves every grain field to its new order parameter, losslessly',
     'After grains were reassigned to other order parameters, remapping the solution vectors acts as one simultaneous relabeling: every '
     'degree of freedom inside a grain carries, in the field of the grain\'s new order parameter, exactly the value it had in the old one, '
     'the vacated field falls below the detection threshold there unless another grain moved in, and fields which are not order parameters do not change. '
     'This holds for every (also cyclic) reassignment, for all grains sharing cells, and for every vector passed.',
     ['inputs', 'configurations'], 'all reassignments (chains, swaps, cycles, into temporary fields), all meshes including hanging nodes, all partitions, several vectors',
     'Tests exercise only the remap graph on two small graphs and print; cyclic chains over shared cells on distributed adaptive meshes are never executed.',
     [GT + 'tracker.h', GT + 'remap_graph.h', GT + 'remapping.h'],
     [('Tracker::remap', GT + 'tracker.h'), ('RemapGraph', GT + 'remap_graph.h')],
     obs=['nodal values before and after', 'number of remappings'])

prop('C03', 'Reassignment separates neighbouring grains with few order parameters',
     'After the tracker ran, no two distinct grains that share an order parameter are closer than the buffer zone, order parameters in use are numbered '
     'contiguously from zero, each is in use, and reassignment never raises their number above the configured maximum (otherwise the tracker refuses). '
     'Fast reassignment changes only grains which collide, as long as the maximum permits. The reported flags '
     '(reassigned, number of order parameters changed) and the collision count tell the truth about what changed.',
     ['inputs', 'histories'], 'all grain arrangements, buffers, greedy or DSATUR-type initial colouring, limits on the number of order parameters, fast and full reassignment',
     'Tests run one or two fixed packings; the guarantee is over every adjacency structure and every previous colouring.',
     [GT + 'tracker.h', GT + 'representation.h', GT + 'grain.h', GT + 'segment.h'],
     [('Tracker::reassign_grains', GT + 'tracker.h'), ('Tracker::track_and_reassign...', GT + 'tracker.h')],
     obs=['order parameter of every grain', 'return tuple of track / initial_setup'])

prop('C04', 'Local fragments are merged into grains independently of the partition',
     'Stitching the fragments found by each process yields exactly the connected components of the global touching relation: two fragments get the same '
     'global index if and only if a chain of touching fragments connects them, and global indices are numbered 0..n-1 on every process alike. The result does '
     'not depend on the number of processes, on which process owns a fragment, or on which side reports a contact.',
     ['inputs', 'schedules', 'configurations'], 'all fragment graphs, all distributions over any number of processes',
     'Two tests use fixed graphs on fixed rank counts.',
     [GT + 'distributed_stitching.h', 'src/grain_tracker/distributed_stitching.cc'],
     [('perform_distributed_stitching', GT + 'distributed_stitching.h')], obs=['global index of each local fragment'])

prop('C05', 'Grain detection finds exactly the connected regions of each order parameter',
     'Detection groups the cells where an order parameter exceeds the threshold into grains exactly along face neighbourhood, whatever the mesh refinement and the '
     'distribution over processes, and each grain segment reports the measure, centre, radius and maximum value of precisely its cells. Looking up a cell returns '
     'the grain and segment it belongs to, or nothing outside every grain.',
     ['inputs', 'configurations'], 'all nodal fields, thresholds, adaptive meshes, numbers of processes',
     'Tests use one smooth packing on one partition; shapes that wrap around process boundaries or refinement interfaces are not covered.',
     [GT + 'tracker.h', GT + 'distributed_stitching.h'],
     [('run_flooding', GT + 'distributed_stitching.h'), ('compute_particles_info', GT + 'distributed_stitching.h'),
      ('compute_particles_max_values', GT + 'distributed_stitching.h'), ('Tracker::detect_grains', GT + 'tracker.h')],
     obs=['per-cell grain and segment index', 'segment centre, radius, measure, max value'])

prop('C06', 'The grain registry stays consistent over the whole history',
     'Over any history of fields, a grain keeps its id and its order parameter while it moves, grows or shrinks; an id never denotes two grains and a newly nucleated '
     'grain gets an id larger than any in use, only when nucleation is allowed and its peak exceeds the creation threshold. Each grain truthfully reports whether it grows or shrinks, '
     'and without nucleation an unmatched grain is refused rather than silently accepted.',
     ['histories', 'inputs'], 'all sequences of fields, thresholds, nucleation settings, merges and disappearances',
     'Tests run at most a single track step on fixed fields.',
     [GT + 'tracker.h', GT + 'tracking.h', GT + 'grain.h'],
     [('Tracker::track', GT + 'tracker.h'), ('Tracker::initial_setup', GT + 'tracker.h')],
     obs=['grain ids, order parameters, dynamics per step'])

prop('C07', 'A grain cut by a periodic boundary is one grain with several segments',
     'On a periodic domain, regions of one order parameter that touch across a periodic boundary form a single grain, one segment per '
     'region, also when they are linked only through a chain of periodic contacts; regions without such a contact remain separate grains.',
     ['inputs', 'configurations'], 'all fields on periodic meshes, all contact chains, all partitions',
     'Tests have one periodic configuration.',
     [GT + 'tracker.h', GT + 'periodicity_graph.h', GT + 'distributed_stitching.h'],
     [('PeriodicityGraph', GT + 'periodicity_graph.h'), ('build_global_periodicity', GT + 'distributed_stitching.h')],
     obs=['grain and segment index per cell'])

prop('C08', 'A dynamic block vector behaves like the tuple of its active blocks',
     'Whatever sequence of growing, shrinking, moving, swapping, viewing and arithmetic is applied, a block vector behaves as the list of its active blocks: '
     'every arithmetic operation, norm and scalar product acts on exactly the active blocks, values survive resizing and moving as specified, and views alias the blocks they show.',
     ['programs', 'histories'], 'all sequences of operations on block vectors with any number of blocks',
     'One test runs one fixed sequence.',
     [LA + 'dynamic_block_vector.h'], [('DynamicBlockVector', LA + 'dynamic_block_vector.h')], obs=['block contents after each operation'])

prop('C09', 'The solution history keeps the last accepted states in order',
     'Committing a step shifts the stored solutions by exactly one place, so that the newest entry is the accepted solution and every older entry is the state accepted that many steps ago; '
     'operations applied to the history (scaling to a new number of components, filtering by predicate, flattening, ghost updates, checkpoints) reach exactly the vectors selected.',
     ['histories', 'programs'], 'all interleavings of commits, filters, restarts and reshaping for every history length',
     'No unit test touches the history on its own.',
     [TI + 'solution_history.h'], [('SolutionHistory', TI + 'solution_history.h')], obs=['contents of the vectors'])

prop('C10', 'Multistep weights match the actual step sizes and accepted history',
     'For every history of accepted steps, step size changes, rollbacks and restarts, the scheme uses the highest order (up to the configured one) for which enough accepted steps exist, and its '
     'weights differentiate polynomials up to this order exactly at the new time for the step sizes actually taken.',
     ['histories', 'inputs'], 'all sequences of step sizes, commits, rollbacks, save/load, orders 1..3',
     'No unit test computes the weights.',
     [TI + 'time_integrator_data.h', TI + 'time_schemes.h'],
     [('TimeIntegratorData', TI + 'time_integrator_data.h'), ('BDFIntegratorScheme', TI + 'time_schemes.h')], obs=['order and weights'])

prop('C11', 'Simulated time advances correctly through failures and step size control',
     'Simulated time advances exactly by the accepted steps: a step starts from the last accepted state (or, with the linear predictor, its extrapolation), a failed step leaves time, solution and history as before and is retried with a reduced step, the step never leaves the configured bounds, '
     'the run stops with an error when it can no longer be reduced, and otherwise ends exactly at the end time. Mesh refinement, grain tracking and output are triggered at their configured frequencies in every accepted step.',
     ['fault_sequences', 'histories', 'configurations'], 'all sequences of Newton outcomes (converged early, late, failed), all time stepping configurations',
     'No stable test runs the time loop; failures are never injected.',
     [SI + 'driver.h', TI + 'time_marching.h'], [('Problem::run', SI + 'driver.h'), ('TimeMarching::make_step', TI + 'time_marching.h')],
     obs=['log of steps'], hook='fault injection in the time step')

prop('C12', 'A restarted run continues exactly where the checkpoint was taken',
     'A run restarted from any checkpoint continues with the same time, step size, time integration history, mesh, solution, grains and counters as the uninterrupted run had at that point, '
     'so that both take the same subsequent steps.', ['crash_points', 'histories', 'configurations'],
     'all checkpoint positions, all stages of the multistep start-up, number of processes, with grains',
     'No test restarts a simulation; grain serialization is tested for one grain map.',
     [SI + 'driver.h', TI + 'time_integrator_data.h', TI + 'solution_history.h', BASE + 'solution_serialization.h'],
     [('Problem restart constructor, save_restart', SI + 'driver.h')], obs=['log of steps after the restart'])

prop('C13', 'The Newton solver reports convergence truthfully and leaves the best iterate',
     'The nonlinear solver reports success if and only if the residual of the returned iterate meets the absolute or relative tolerance, fails after exactly the permitted number of iterations, accepts a '
     'damped step only according to its rule, and updates Jacobian and preconditioner no less often than configured; its statistics count exactly the work done.',
     ['inputs', 'fault_sequences', 'configurations'], 'all sequences of residual norms, tolerances, damping and update settings',
     'No unit test of the solver exists.',
     [LA + 'newton.h', LA + 'solvers_nonlinear.h'], [('NewtonSolver::solve', LA + 'newton.h'), ('DampedNewtonSolver', LA + 'solvers_nonlinear.h')],
     obs=['sequence of callbacks', 'statistics or exception'])

prop('C14', 'Periodic actions fire exactly when their trigger condition is met',
     'A predicate that governs output or restart saving by number of calls, simulated time or wall time fires at the first query at which the configured interval has elapsed since it last fired '
     '(queries repeated at that very instant see the same answer), never otherwise and never without an interval; all processes get the same answer, and the start value given to it (calls made so far, time of the last firing) sets its phase.', ['histories', 'configurations'], 'all sequences of queries and all intervals',
     'Not tested.', [BASE + 'timer.h', 'src/base/timer.cc'], [('TimerPredicate', BASE + 'timer.h')], obs=['sequence of answers'])

prop('C15', 'The generated mesh covers the domain at the requested resolution',
     'Mesh generation yields a mesh covering exactly the given box; coarse cells and refinements (performed plus delayed, as the chosen strategy says) together reach the element size requested by interface width or particle radius. '
     'A prime limit replaces the cells of every direction by a permitted prime doubled until it reaches them (up to one base cell), whichever comes closest, with equal number of refinements in all directions; '
     'boundary faces are identified per side and, if periodic, all paired.', ['inputs', 'configurations'],
     'all sizes, widths, resolutions, prime limits', 'Two tests cover fixed boxes.',
     ['src/grid/grid_tools.cc', GRID + 'grid_tools.h'], [('create_grid, make_primes, decompose_to_prime_tuple', GRID + 'grid_tools.h')], obs=['subdivisions and refinements'])

prop('C16', 'Adaptive refinement respects level limits and preserves the solution',
     'Refinement marks precisely the cells of an interface of some order parameter or concentration, never leaves the permitted range of levels, keeps the mesh two-to-one balanced, and carries the solution '
     'to the new mesh without changing it at points which persist.', ['inputs', 'configurations', 'histories'], 'all fields, level limits, thresholds',
     'No stable test refines adaptively.', [GRID + 'grid_tools.h', SI + 'driver.h'],
     [('coarsen_and_refine_mesh', GRID + 'grid_tools.h')], obs=['cell levels', 'nodal values'])

prop('C17', 'Grains survive serialization unchanged',
     'Writing any collection of grains to an archive and reading it back yields equal grains: ids, order parameters, old order parameters, dynamics, measures, maximum values and every segment with its '
     'spatial representation (spherical, elliptical, wavefront).', ['inputs'], 'all grains and representations, 2D and 3D',
     'One test with one kind of grains.', [GT + 'grain.h', GT + 'segment.h', GT + 'representation.h', GT + 'ellipsoid.h'],
     [('serialize', GT + 'grain.h')], obs=['grains after a round trip', 'distances computed from them'])

prop('C18', 'Saved solutions are restored to the same values at every point',
     'Saving any number of solution vectors together with an adaptive mesh and loading them later on the same number of processes restores every vector value at every support point, '
     'whatever the numbering of the unknowns in either run, the polynomial degree, periodicity and what happened to mesh and vectors in between; files written to other slots are unaffected.',
     ['inputs', 'configurations', 'histories'], 'all meshes, vectors, numberings, process counts', 'Not tested.',
     [BASE + 'solution_serialization.h'], [('SolutionSerialization', BASE + 'solution_serialization.h')], obs=['nodal values after load'])

prop('C19', 'The bounding box filter classifies cells correctly',
     'A point is reported inside, on the boundary of, or outside the box according to its coordinates, consistently by all queries; the vectorized filter keeps exactly the points strictly inside in every lane; a cell is reported as cut by the box unless its vertices '
     'are all strictly inside or all outside; the intersection of a line with a plane lies on both, and is refused only for parallel ones.',
     ['inputs'], 'all boxes and cells', 'Not tested.', [GRID + 'bounding_box_filter.h'], [('BoundingBoxFilter', GRID + 'bounding_box_filter.h')], obs=['position returned'])

prop('C20', 'Piecewise functions interpolate their table exactly',
     'A tabulated time-dependent function returns the table values at the nodes, the linear interpolation (and its slope) in between, and outside the end values or, if so configured, the continuation of the first and last piece.',
     ['inputs'], 'all tables and arguments', 'Not tested.', [NUM + 'functions.h'], [('Function1DPiecewise', NUM + 'functions.h')], obs=['returned values'])

prop('C21', 'Initial particles get order parameters so that touching ones differ',
     'The initial order parameter assignment covers every particle once and gives two particles closer than interface and buffers allow different order parameters, needing at most one more than the largest number of such neighbours when minimized; '
     'the field of a particle is one inside, zero outside and one half on its surface and is cut off at the plane through the neck with a touching particle, wherever the particles lie; '
     'concentration and order parameters agree, and the reported domain is the smallest box holding all particles.', ['inputs'], 'all particle clouds, rings and blocks', 'Not tested beyond fixed examples.',
     [SI + 'initial_values_spherical.h', SI + 'initial_values_cloud.h', SI + 'initial_values_circle.h', SI + 'initial_values_hypercube.h', SI + 'initial_values_array.h', SI + 'initial_values_ch_ac.h', 'applications/sintering/src/csv_reader.cc'],
     [('InitialValuesCloud', SI + 'initial_values_cloud.h'), ('InitialValuesCircle', SI + 'initial_values_circle.h'), ('InitialValuesHypercube', SI + 'initial_values_hypercube.h')], obs=['order_parameter_to_grains', 'value at points', 'domain boundaries'])

prop('C22', 'Microstructures read from contours follow the distance to them',
     'A microstructure given by grain contours or by Voronoi cells yields for every grain an order parameter which is full inside, zero outside and follows the distance to the contour linearly over the interface (inside, across or outside of it), '
     'independently of orientation and first vertex of the contours; every grain keeps the order parameter given in the file, or, for Voronoi cells, grains meeting in a vertex get different ones; domain and largest radius cover all contours.',
     ['inputs'], 'all files of contours and cells, interface widths and directions', 'Not tested.',
     [SI + 'initial_values_microstructure.h', SI + 'initial_values_microstructure_imaging.h', SI + 'initial_values_microstructure_voronoi.h', 'applications/sintering/src/csv_reader.cc'],
     [('InitialValuesMicrostructure::op_value', SI + 'initial_values_microstructure.h')], obs=['order_parameter_to_grains', 'value at points', 'domain boundaries'])

N = json.load(open(os.path.join(V, 'lib', 'claims.json')))
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    ids = [p['id'] for p in P]
    for p in P:
        i = p['id']
        if i in N['claimed']:
            c = N['claimed'][i]
            checks.append({'property': i, 'level': c.get('level', 'model_checking'),
                           'technique': c['technique'], 'quick_cmd': 'python3 checks/%s.py' % i.lower(),
                           'thorough_cmd': 'python3 checks/%s.py --thorough' % i.lower()})
            if 'note' in c:
                checks[-1]['level_note'] = c['note']
        else:
            na.append({'property': i, 'reason': N['not_applicable'].get(i, 'no check has been built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
         'hooks': {'guard': 'HPSINT_VERIF_HOOKS', 'enable': 'checks compile their own harnesses from /repo with -DHPSINT_VERIF_HOOKS',
                   'source_commits': N['hook_commits']},
         'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
