"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = 'starshaped_hull/cluster_and_starify.py'
SH = 'starshaped_hull/starshaped_hull.py'
OB = 'obstacles/obstacle.py'
SO = 'obstacles/starshaped_obstacle.py'
EL = 'obstacles/ellipse.py'
PO = 'obstacles/polygon.py'
SP = 'obstacles/starshaped_polygon.py'
PC = 'obstacles/starshaped_primitive_combination.py'
MM = 'obstacles/motion_model.py'
CG = 'utils/cg.py'
MI = 'utils/misc.py'

DOM = ('Scenes are ellipses, starshaped polygons (convex or not) and plain polygons of any simple shape, with distinct ids, '
       'sizes 0.2-3, positions within about 10 units, in general position (robot and goal at least 0.02 off every obstacle).')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None,
         technique=None, note=None, na=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, hook=hook, technique=technique, note=note, na=na, level=level))


NOASSERT = 'The existing tests contain no assertion at all: they call the code on one fixed scene and draw it. '

prop('C01', 'A complete plan is a partition into disjoint regions covering every obstacle',
     'Whenever clustering and starifying a scene of obstacles, convex or not, reports completion, every input obstacle belongs to '
     'exactly one cluster, every cluster has a region, the regions of different clusters are pairwise disjoint, and each '
     'region contains the whole area of every obstacle in its cluster. This holds at every step of any history of moving '
     'obstacles and warm starts, and also when the clusters are additionally made convex.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories (motion ticks, dropped/stale/lost previous plans, make_convex on or off, workspaces). ' + DOM,
     NOASSERT + 'One three-ellipse scene with three poses is planned; the guarantee is over every scene and every sequence of steps.',
     [CL, SH, PC, SP],
     [('connected-component merge of intersecting regions until none intersect', CL + ': get_intersection_clusters, cluster_and_starify'),
      ('optional convexification only if it meets no other region', CL + ': make_convex block'),
      ('union of member obstacles and hull', PC + ': _compute_polygon_representation')],
     state=[('clusters', 'current grouping with cached region polygons', CL + ': ObstacleCluster')],
     observe=['cluster_and_starify return value: clusters[i].obstacles, clusters[i].polygon(), clusters[i].cluster_obstacle'],
     technique='seeded simulation of a control loop (motion, planner warm starts, lost/stale plans, stalls) with region invariants after every plan',
     note='Seeded search over simulated control-loop histories on the real planner; oracles are independent boolean-geometry checks with tolerance 1e-6 area. Trusts shapely/GEOS for boolean operations.')

prop('C02', 'A complete plan never claims the robot or the goal',
     'Whenever clustering and starifying a scene reports completion for a robot and goal position outside all obstacles, '
     'no region of the plan contains the robot position or the goal position in its interior. This holds at every step of any history of moving '
     'obstacles, moving robot, warm starts from earlier plans, and with the option to make regions convex.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories in which the robot moves and previous plans are fed back, stale, or lost. ' + DOM,
     NOASSERT + 'Whether a kernel kept from an earlier step excludes the robot at its new position depends on the history.',
     [CL, SH, CG, EL, PO],
     [('admissible kernel = intersection of cones at robot and goal', SH + ': admissible_kernel; ' + CG + ': Cone.list_intersection'),
      ('kernel points chosen inside the admissible kernel', CL + ': compute_kernel_points')],
     state=[('previous_clusters', 'kernel carried over from the last step', CL)],
     observe=['clusters[i].polygon() against the robot and goal positions'],
     technique='seeded simulation of a control loop with robot/obstacle motion and faulty warm starts; containment invariant after every plan',
     note='Seeded search; the invariant is evaluated against both the region polygon and the query interface of the region.')

prop('C03', 'Every region of a complete plan is starshaped about its reference point',
     'Whenever clustering and starifying a scene of obstacles, convex or not, reports completion, every straight segment from a region\'s reference point '
     'to any point of that region stays inside the region, and the same holds from each of the kernel points reported for the cluster, '
     'which form a triangle of side at most the requested kernel width around the reference point. Deviation is allowed only up to the polygonal '
     'approximation error of the ellipses involved.',
     ['histories', 'inputs'],
     'All control-loop histories and warm starts. ' + DOM,
     NOASSERT + 'Starshapedness of hulls around kernels inherited from earlier steps is a property of every history.',
     [CL, SH, PC, SP, CG],
     [('starshaped hull of each obstacle for the kernel points', SH + ': convex_kernel_starshaped_hull'),
      ('equilateral kernel triangle of bounded side', CL + ': compute_kernel_points; ' + CG + ': equilateral_triangle')],
     observe=['clusters[i].polygon(), clusters[i].cluster_obstacle.xr(), clusters[i].kernel_points'],
     technique='seeded simulation of a control loop; visibility of every region vertex from reference and kernel points checked after every plan',
     note='Seeded search; tolerance is the sagitta of the coarsest ellipse approximation in the cluster plus 1e-3.')

prop('C04', 'Scenes whose overlapping obstacles share a region always plan and lose no space',
     'If the obstacles of a scene fall into groups such that the members of each group have a common area from which all of each is visible, different groups are apart, and '
     'robot and goal are outside all obstacles, then planning without limits and without convexification reports completion, the clusters are exactly those groups, and each region is exactly '
     'the union of its members, adding no other area, with its reference point in that common area. This holds for cold starts and for warm starts from any earlier plan.',
     ['histories', 'inputs'],
     'All such scenes of ellipses, starshaped polygons (convex or not) and convex plain polygons, reached through any history of motion and plans. ' + DOM,
     'No test checks that the flag, the grouping or the area is right; unnecessary failure or lost free space goes unnoticed.',
     [CL, SH, CG],
     [('kernel chosen in the intersection of member kernels when possible', CL + ': compute_kernel_points'),
      ('no hull extension for obstacles that contain the kernel', SH + ': kernel_starshaped_hull')],
     observe=['exit flag, grouping of clusters[i].obstacles, area of clusters[i].polygon()'],
     technique='seeded simulation of a control loop on constructed scenes with known groups; exact grouping/area oracle and progress (completion) after every plan',
     note='Progress and exactness oracle on the sub-domain in which the right answer is known by construction.')

prop('C05', 'Compute and iteration limits are honoured and the exit flag is truthful',
     'Under any behaviour of the clock and any compute-time or iteration limit, planning returns without raising; the flag is "complete", or "out of time while making regions convex", only if the returned regions satisfy every guarantee of a complete plan, and '
     'the "incomplete" result is one cluster per input obstacle whose region is that obstacle. If the limit is never reached the plan equals the unlimited plan; if the time limit '
     'has passed before work that was still needed began, the plan is abandoned rather than finished late.',
     ['schedules', 'fault_sequences', 'configurations'],
     'All clock schedules (steady, frozen, coarse, stalled, jumping forward), budgets and iteration caps. ' + DOM,
     'No test passes a budget or an iteration cap, and real clocks cannot be made to stall between two chosen operations.',
     [CL, MI],
     [('budget polled per obstacle, per merge iteration and per convexified cluster', CL + ': max_compute_time'),
      ('iteration cap', CL + ': max_iterations'), ('clock', MI + ': tic, toc')],
     observe=['flag, clusters and iteration count returned under a simulated clock'],
     technique='deterministic simulated clock driven by executed work plus injected stalls; limited run compared with the unlimited twin run',
     note='Clock reads go to a simulated clock (time module patched before import); deadlines are placed at every phase of a plan by seeded choice. The exact instant of a poll is not prescribed, only phases.')

prop('C06', 'Plans do not depend on the clock or on being observed',
     'With the same scene, same previous plan and same random stream, planning without a time limit returns bit-identical clusters, flag and iteration count whatever '
     'the clock does (frozen, coarse, jumping backwards or forwards) and whether or not verbose output, timing output, iteration history or drawing of obstacles and plans is requested. '
     'Observation neither raises nor draws from the random stream that scene generation and planning use.',
     ['schedules', 'fault_sequences', 'configurations'],
     'All clock schedules and all combinations and placements of observation. ' + DOM,
     'A test runs once on one clock with one combination of flags; independence is a relation between runs.',
     [CL, MI, PO, EL, PC],
     [('timing bookkeeping separate from results', CL + ': tic/toc bookkeeping'),
      ('drawing separate from planning', PO + ': init_plot; ' + CL + ': draw_*')],
     observe=['digest of the returned plan; global random state before and after'],
     technique='twin-run simulation: identical seeded histories executed under different simulated clocks and observation schedules, digests compared bit for bit',
     note='Metamorphic twin runs in forked processes; any difference in digest or exception is a violation.')

prop('C07', 'Any earlier outcome can be fed back as the previous plan',
     'Whatever an earlier planning step returned - complete, incomplete, out of time, out of iterations, made convex, computed for another pose of the world or for other obstacles, or lost - '
     'passing it as the previous plan never makes the next step raise or hang. The next step then reaches a flag and regions that satisfy the same guarantees as a fresh start.',
     ['histories', 'fault_sequences', 'crash_points'],
     'All sequences of planner outcomes and of losing, replaying or delaying the stored plan between steps. ' + DOM,
     'The one test that uses a previous plan feeds back two complete plans of one scene.',
     [CL],
     [('lookup of the previous cluster by name', CL + ': extract_cluster'), ('reuse of its kernel centre and id', CL + ': compute_kernel_points, cluster_and_starify')],
     state=[('previous_clusters', 'the only state surviving between control steps', CL)],
     observe=['exception, step count, flag and region guarantees of the next plan'],
     technique='seeded simulation of planner crash/restart/timeouts with stored plans lost, delayed or replayed; guarantees re-checked after each plan and termination bounded in steps',
     note='Faults: budget exhaustion at any phase, iteration cap, lost plan, stale plan (k steps old), plan of a different scene subset.')

prop('C08', 'Unchanged clusters keep their identity and reference point between steps',
     'If a step is warm-started with the previous complete plan, a cluster made of the same obstacles that again needs its own combined region keeps the identifier it had. If in addition its previous reference point still lies '
     'in the admissible common area the planner chooses from, the reference point is kept unchanged, so that replanning an unchanged scene that arrives at the same clusters returns the same regions and reference points at every later step.',
     ['histories'],
     'All histories of warm-started steps, including interleaved losses of the plan. ' + DOM,
     'Stability between steps is a relation over an unbounded sequence; the one test with a warm start asserts nothing.',
     [CL],
     [('identifier reuse', CL + ': cl_id'), ('previous triangle centre kept if still in the selection set', CL + ': compute_kernel_points')],
     observe=['cluster_obstacle.id(), cluster_obstacle.xr() across steps'],
     technique='seeded simulation of long warm-started control loops with stutter steps; step-to-step relation checked',
     note='Reference-point stability is decided on scenes where the common area is known (members share a region) and on exact stutter steps.')

prop('C09', 'Planning leaves the caller\'s world as it was',
     'A planning step, whatever its outcome, does not change any obstacle\'s pose, motion, shape or identity, the robot and goal positions, the list of obstacles, the workspace, or any cluster of the previous plan passed in; the only permitted effect on an '
     'obstacle is a new reference point inside that obstacle. Later ticks therefore continue exactly as if no plan had been made.',
     ['histories', 'fault_sequences'],
     'All histories interleaving ticks and plans with any options and outcomes, including plans that run out of time. ' + DOM,
     'No test looks at its inputs after the call.',
     [CL, SH, PC, SO],
     [('planner builds new cluster objects', CL + ': ObstacleCluster'), ('reference point recentring', SO + ': set_xr')],
     observe=['obstacle poses, polygons, ids; arrays passed in; previous plan regions before and after'],
     technique='twin-run simulation: the same motion history with and without interleaved plans, world states compared after every event',
     note='World digest compared between the planning and non-planning twin, and before/after each call.')

prop('C10', 'Obstacle geometry always reflects the current pose',
     'After any history of motion ticks, replacing or re-posing the motion, moving the reference point, copying, dilating and earlier queries in any order, every geometric answer of an obstacle (polygon, kernel, position, rotation, '
     'reference point, extreme points, point location, convexity, intersection with another obstacle, frame transforms) in either frame is the body-fixed shape rigidly transported to the current pose. Answers in the obstacle frame never change with motion.',
     ['histories'],
     'All orders of queries, ticks, pose changes, reference changes, copies and dilations over ellipses, polygons and starshaped polygons, convex or not.',
     NOASSERT + 'A stale cached polygon shows only for particular orders of queries and moves.',
     [OB, SO, EL, PO, SP, CG],
     [('global polygon and kernel cached per pose', OB + ': polygon; ' + SO + ': kernel'), ('frame transforms', CG + ': affine_transform; ' + OB + ': transform, rotate')],
     state=[('_polygon_global/_polygon_global_pose, _kernel_global/_kernel_global_pose', 'caches keyed by pose', OB + ', ' + SO)],
     observe=['polygon(), kernel(), pos(), rot(), xr(), point_location(), intersects(), transform(), rotate()'],
     technique='seeded history simulation against an independent rigid-body reference model, all queries compared after every event',
     note='Reference model is written from scratch with numpy (own transforms, own containment).')

prop('C11', 'Radial queries of a moving starshaped obstacle agree with its region',
     'At every step of any motion history, for a starshaped obstacle and a query point other than its reference point, in any combination of frames: the boundary mapping is the point where the ray from the reference point through the query point leaves the region; '
     'the distance function is below, equal to or above one exactly inside, on or outside the boundary and agrees with point location; and the normal there is the outward unit normal of the boundary piece hit.',
     ['histories', 'inputs'],
     'All motion and reference-point histories, query points and frame combinations; query rays that hit a vertex within 1e-3 are only checked for consistency.',
     NOASSERT + 'Special directions (steep rays, off-centre reference points, rotated frames) decide correctness.',
     [EL, SP, SO, OB],
     [('ray-boundary intersection', EL + ': line_intersection, boundary_mapping; ' + SP + ': boundary_mapping'), ('normal by vertex angle', SP + ': normal, _update_vertex_angles')],
     observe=['boundary_mapping, distance_function, point_location, normal, reference_direction'],
     technique='seeded history simulation; each answer compared with an independent reference model at the current pose and reference point',
     note='Reference model solves the ray/ellipse quadratic and ray/edge equations independently.')

prop('C12', 'Tangents and segment crossings of moving obstacles are exact',
     'At every step of any motion history, for an exterior point from which a convex obstacle is seen, the two tangent points lie on the boundary, the obstacle lies entirely between the two tangent lines, and they are returned left one first as seen from the point; no tangents are returned for interior points. '
     'The intersection of a segment with a convex obstacle returns exactly the points where the segment crosses the boundary, in any combination of frames. With a polygon of any shape, and also for segments exactly along its edges, what is returned lies on the segment and on the boundary and no place where the segment passes through the boundary is missing.',
     ['histories', 'inputs'],
     'All motion histories, points, segments and frame combinations in general position (not within 1e-3 of grazing or of the boundary).',
     NOASSERT + 'Vertical, steep and axis-aligned configurations select special-case code.',
     [EL, PO],
     [('closed-form ellipse tangents and crossings', EL + ': tangent_points, line_intersection'), ('angular extremes of polygon vertices', PO + ': tangent_points')],
     observe=['tangent_points, line_intersection'],
     technique='seeded history simulation; answers compared with an independent reference model at the current pose',
     note='Oracle: support-function tangents and quadratic/edge crossings computed independently.')

prop('C13', 'An aborted query or plan never poisons later answers',
     'If a geometric query, a drawing update or a planning step is aborted at any point by an exception from underneath (interrupt, failed allocation, error of the geometry backend, broken output stream), then every later query and plan '
     'returns exactly what it would have returned had the aborted call never been made, up to the reference point of the obstacles an aborted plan may re-centre, which must remain consistent with all their later answers.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Every call made from library code during the operation as abort point, at any place of any history.',
     'Tests never inject a failure; the states in question exist only between two internal steps of an operation.',
     [OB, SO, EL, SP, PC, CL],
     [('cache value and its key are published together', OB + ': polygon; ' + SO + ': kernel'), ('derived vertex order follows the reference point', SP + ': set_xr, _update_vertex_angles; ' + PC + ': normal')],
     observe=['answers after the fault compared with a twin run without the aborted call'],
     technique='fault injection at every call site reached (sys.monitoring CALL events) by seeded choice, twin-run comparison of all later answers',
     note='Injected: MemoryError, KeyboardInterrupt, GEOSException raised at the n-th call made from library code; OSError from output.')

prop('C14', 'Concurrent readers get the answers sequential readers get',
     'When several threads query the same unmoving obstacles and plan regions at the same time - polygons, kernels, point location, convexity, normals, boundary mappings, tangents - for the first time or after a move, every thread gets '
     'exactly the answer a single thread would get, and none raises, in every interleaving.',
     ['schedules'],
     'All interleavings, at function starts, jumps and calls of library code, of two to four reader threads over freshly built, moved or planned obstacles.',
     'No test starts a thread; the failing interleavings last microseconds.',
     [OB, SO, EL, PO, SP, PC],
     [('lazily computed caches published after they are complete', OB + ': polygon; ' + SO + ': kernel; ' + PC + ': normal')],
     observe=['per-thread answers against the sequential answers'],
     technique='deterministic cooperative thread scheduler switching at function starts, jumps and before/after calls in library code (sys.monitoring), seeded interleavings, sequential answers as oracle',
     note='Real threads parked and released one at a time; switch points are where CPython can switch: function starts, jumps, before and after calls.')

prop('C15', 'Poses and points handed over are snapshots',
     'Positions, reference points, polygons and tangent or boundary points obtained from an obstacle do not change when the obstacle moves later, and arrays passed in as positions, reference points, waypoints, shapes or query points are neither modified by later '
     'ticks and plans nor able to change the obstacle when the caller modifies them afterwards; nor does modifying an array received change the obstacle.',
     ['histories'],
     'All histories mixing hand-overs, later ticks and later modification of the handed-over arrays by the caller.',
     'The aliasing shows only when a value is kept across a tick, which no test does.',
     [MM, OB, SO, EL, SP],
     [('positions copied in and out', MM + ': __init__, set_pos, pos, move'), ('reference point copied', SO + ': __init__, set_xr, xr')],
     observe=['kept values before and after later events'],
     technique='seeded history simulation with an aliasing adversary: kept results are compared and passed-in arrays are scribbled on at arbitrary later events',
     note='Twin comparison against the reference model; the adversary modifies every array it has handed in or received.')

prop('C16', 'Copies and dilations are faithful, independent and uniquely identified',
     'A copy has the geometry of its original at the moment of copying, and a dilation contains the original region and exceeds it by no more than the padding, irrespective of which queries were made before; neither changes the original\'s geometry, and later reference-point changes of one do not affect the other. '
     'New obstacles and new copies always get an identifier no other obstacle has, temporary ones get none and duplicates keep that of the original.',
     ['histories'],
     'All histories interleaving copies, dilations, chained dilations, motion, reference changes and queries.',
     'No test copies or dilates an obstacle.',
     [OB, EL, PO, SP],
     [('id counter', OB + ': _set_id_name'), ('dilated_obstacle and copy', EL + ', ' + PO + ', ' + SP)],
     state=[('id_counter', 'process-wide last identifier', OB)],
     observe=['polygon(), point_location(), id(), xr() of copy and original'],
     technique='seeded history simulation with reference model for copies/dilations (true offset bounds) and an id ledger',
     note='Dilated ellipses are allowed anywhere between the enlarged ellipse and the true offset curve.')

prop('C17', 'Motion is the integration of the reported velocity under any tick schedule',
     'Over any sequence of ticks of any lengths, an obstacle\'s pose is its start pose plus the sum of (velocity reported just before the tick) times (tick length), its clock is the sum of tick lengths, a zero-length tick changes nothing, and copies of the same motion fed the same ticks stay identical. '
     'Static obstacles never move, sinusoidal motion reports the documented velocity at its own elapsed time, and the velocity reported for a body point of a moving starshaped obstacle is that of rigid motion.',
     ['schedules', 'histories'],
     'All tick schedules (jitter, missed, doubled, zero-length ticks, stalls), motion parameters and re-posing events.',
     'No test ever moves an obstacle through its motion model.',
     [MM, OB, SO],
     [('explicit Euler step', MM + ': move'), ('velocity laws', MM + ': lin_vel, rot_vel; ' + SO + ': vel_intertial_frame')],
     observe=['pos(), rot(), lin_vel(), rot_vel(), vel_intertial_frame() after every tick'],
     technique='discrete-event simulation of tick schedules against an independent motion reference model',
     note='Reference integrates the documented velocity laws independently.')

prop('C18', 'Timetabled motion keeps its timetable and comes to rest',
     'Under any tick schedule whose ticks do not step across a timetable instant, an obstacle on a timetable is at each scheduled instant exactly at the scheduled position and on the straight line between neighbouring positions in between. After the last instant it '
     'stays at the last position, for every further tick of any length. If ticks do step across instants, every tick before the end moves the obstacle with the velocity scheduled when the tick starts; afterwards the obstacle heads '
     'straight for the last position, never moves away from it and comes home within bounded time, for ticks no longer than 1 and than the time needed for one unit of length.',
     ['schedules'],
     'All timetables with positive durations and all tick schedules hitting the timetable instants, afterwards ticks of any length; all tick schedules crossing instants, afterwards short ticks (last leg faster than 0.05).',
     'No test uses this motion model.',
     [MM],
     [('piecewise constant velocity', MM + ': Interval.lin_vel')],
     observe=['pos() at and between the scheduled instants and after the last one'],
     technique='discrete-event simulation of tick schedules against the timetable as reference model, including the rest phase (bounded liveness)',
     note='Exactness up to 1e-9 accumulated rounding.')

prop('C19', 'Waypoint motion reaches every waypoint in order and then stops',
     'Under any tick schedule whose steps are at most the waypoint tolerance, an obstacle following waypoints comes within the tolerance of each waypoint in the given order, moves at exactly the given speed until then, reaches the last one within the time its path length allows plus a bounded overhead, '
     'and stays at rest afterwards. Asking for its velocity any number of times between ticks does not change the path.',
     ['schedules', 'histories'],
     'All waypoint lists, speeds, tolerances and tick schedules with speed times tick at most the tolerance, with extra velocity queries interleaved anywhere.',
     'No test uses this motion model; progress is a liveness property over schedules.',
     [MM],
     [('waypoint index advanced within tolerance', MM + ': Waypoints.lin_vel')],
     observe=['pos(), lin_vel()'],
     technique='discrete-event simulation of tick schedules; order, speed and bounded-time arrival (liveness) checked',
     note='Arrival bound: path length / speed plus a few ticks and tolerance per waypoint.')

prop('C20', 'Random shape generators keep their contracts for every random stream',
     'For every state of the random stream, a generated convex polygon has the requested number of vertices, is convex, fills exactly the requested extents and has its vertex mean at the origin; a generated star polygon has the requested number of vertices in counter-clockwise angular order around its centre with radii at most '
     'twice the average; a random point of a triangle lies in that triangle; and the same stream state gives the same shape. Parameters outside the documented range are refused.',
     ['schedules', 'inputs'],
     'All outcomes of the random source, including extreme and repeated draws, and all admissible parameters.',
     'Tests use one seed and check nothing.',
     [CG],
     [('edge-vector construction', CG + ': generate_convex_polygon'), ('angular steps', CG + ': generate_star_polygon, random_angle_steps'), ('barycentric sampling', CG + ': point_in_triangle')],
     observe=['returned vertices'],
     technique='simulated random source: the global random stream is replaced by a seeded, fault-injecting stream (extremes, repeats); contract checked on every generated shape',
     note='Randomness is the nondeterminism here; adversarial draws stay within what the real generator can return.')

prop('C21', 'Plots of moving obstacles show the current pose',
     'After any history of ticks, reference changes and redraws, updating the plot handles of an obstacle leaves its outline, reference marker and name label exactly at the obstacle\'s current geometry in the requested frame. Redrawing never changes the obstacle, and other plots stay as they were. Drawings of a plan show every obstacle, every region, the robot and the goal.',
     ['histories'],
     'All interleavings of ticks, reference changes and plot updates over all obstacle kinds and display options.',
     'Tests draw once and look at nothing.',
     [EL, PO, SP, PC],
     [('init_plot/update_plot', EL + ', ' + PO + ', ' + SP)],
     observe=['matplotlib artist data after update_plot/draw'],
     technique='seeded simulation of an animation loop (motion and redraw events) with artist state compared with the reference model',
     note='matplotlib Agg backend; artists inspected, not pixels.')

prop('C22', 'A guarded reference-point update never leaves the kernel',
     'Under any history of guarded reference-point updates, in either frame and interleaved with motion, the reference point of a starshaped obstacle moves to the requested point exactly if that point belongs to the kernel of the obstacle at its current pose and otherwise stays unchanged. '
     'It therefore always remains a point from which the whole obstacle is visible.',
     ['histories'],
     'All histories of guarded updates and motion over ellipses and starshaped polygons, convex or not; requested points at least 1e-3 off the kernel boundary.',
     'No test sets a reference point this way.',
     [SO, SP, EL],
     [('kernel membership test before the update', SO + ': set_xr')],
     observe=['xr() after each guarded update'],
     technique='seeded history simulation against a reference model of the guarded register',
     note='Kernel oracle: half-plane intersection computed independently; a convex obstacle is its own kernel.')

prop('C23', 'Queries on a planned region agree with the region',
     'For every combined region of a complete plan, at the step it was planned: point location reports inside, boundary or outside in agreement with the region, the boundary mapping of any other point is the point where the ray from the reference point leaves the region, the distance function agrees with point location, '
     'the normal is the outward unit normal of the boundary piece hit, and crossings reported for a segment lie on it and on the region and exist whenever the segment leaves the region. These answers do not depend on the order in which they are asked. All of it still holds after the reference point of the region has been moved between its kernel points; a guarded request to move it out of the region is without effect.',
     ['histories', 'inputs'],
     'All plans reached by any control-loop history, all query points at any distance, all orders of queries.',
     'The only test of a combined region fails before it asks anything.',
     [PC, SO],
     [('union of primitives and hull', PC + ': point_location, boundary_mapping'), ('lazy vertex angles', PC + ': normal, _update_vertex_angles')],
     observe=['point_location, boundary_mapping, distance_function, normal of the cluster obstacle'],
     technique='seeded simulation of a control loop whose consumer task queries the planned regions in random order; answers compared with an independent polar reference model of the region',
     note='Ellipse members differ from their polygon by the sagitta; points in that band are not judged.')

prop('C27', 'Regions of a complete plan are no larger than their kernels require',
     'Every region of a complete plan is the smallest set that contains its obstacles and is starshaped about the kernel points reported for it: nothing is added to an obstacle that is already seen as a whole from all of them, '
     'a convex obstacle is extended exactly to its convex hull with the kernel points, a nonconvex polygon exactly by what lies between the kernel points and its edges. A region made convex on request is exactly the convex hull of that set. '
     'This holds at every step of any history of moving obstacles and warm starts.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories (motion ticks, dropped/stale/lost previous plans, make_convex on or off, workspaces). ' + DOM,
     'The tests of the starshaped hull are empty, and the hull is built for whatever kernel points the history of earlier plans led to.',
     [SH, CL, PC],
     [('starshaped hull of convex and nonconvex obstacles', SH + ': kernel_starshaped_hull'),
      ('union of obstacles and hull', PC + ': _compute_polygon_representation')],
     observe=['clusters[i].polygon(), clusters[i].kernel_points'],
     technique='seeded simulation of a control loop with faulty warm starts; after every plan each region is compared with the set an independent model builds from the obstacle poses and the reported kernel points',
     note='Tolerance 1.2e-3 around the modelled set; kernel points more than 1e4 away are not judged (rounding).')

prop('C28', 'Regions are made convex whenever nothing is in the way, and nothing else changes',
     'With the request to make regions convex, a complete plan has the same clusters, reference points and kernel points as the plan without it from the same state, and each of its regions is either the one of that plan or exactly its convex hull; '
     'a nonconvex region is left if, and only if, its convex hull contains the robot or the goal or meets another region. If time runs out meanwhile, the regions reached so far are kept and remain disjoint.',
     ['histories', 'inputs', 'schedules'],
     'All control-loop histories with convexification requested, under any behaviour of the clock. ' + DOM,
     'No test asks for convex regions.',
     [CL, PC, PO],
     [('optional convexification', CL + ': make_convex block'), ('convexity of a region', PC + ': _check_convexity')],
     observe=['clusters of a plan with and without make_convex'],
     technique='seeded simulation of a control loop forked before every plan: a twin plans without convexification, the two outcomes are compared; stalls at arbitrary instants of the convexification',
     note='Regions lacking less than 1e-3 area to their hull count as convex; hulls within 1e-5 of the robot, the goal or another region are not judged.')

prop('C29', 'Obstacles share a region only because regions met',
     'A plan is reached in stages, which it reports on request: the first has every obstacle alone, each following stage joins exactly those clusters whose regions of the stage before are connected by meeting one another and leaves the others and their regions as they were, '
     'there are as many stages as iterations, and the last one has the returned clusters, whose regions do not meet. A plan that is given up reports the stages up to the one at which it was.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories (motion ticks, dropped/stale/lost previous plans, iteration caps, workspaces) whose plans are asked for their history. ' + DOM,
     'The tests look at no clusters; which regions meet depends on where obstacles and earlier kernels are.',
     [CL], [('grouping of meeting regions', CL + ': get_intersection_clusters'), ('stages', CL + ': cluster_iterations')],
     observe=['history and iteration count of a plan, clusters[i].obstacles, clusters[i].polygon()'],
     technique='seeded simulation of a control loop; the recorded stages of every plan are replayed against an executable reference of the grouping (refinement of partitions by connected regions)',
     note='Regions closer than 1e-9 or sharing less than 1e-9 area may be joined or not.')

prop('C30', 'A plan is given up only for a reason and never completed against one',
     'Without limits, planning is given up only if the robot or the goal is inside an obstacle or walled in by one, or if a cluster that had to be formed - possibly a single obstacle - leaves no room for a kernel from which nothing of it hides the robot or the goal. '
     'If the robot or goal is inside an obstacle, or a cluster of the plan leaves no such room, the plan is never reported complete.',
     ['histories', 'inputs', 'fault_sequences'],
     'All control-loop histories, including obstacles that run into the robot or the goal, with robot and goal anywhere, also deep in bays of nonconvex obstacles and inside rings of obstacles. ' + DOM,
     'Tests plan one scene that succeeds.',
     [CL, SH, PO, EL, CG], [('admissible kernel of an obstacle and of a cluster', SH + ': admissible_kernel'), ('giving up', CL + ': default_result'), ('points that see out', PO + ': tangent_points')],
     observe=['exit flag, history of a plan'],
     technique='seeded simulation of a control loop with collisions as injected faults; every verdict of the planner is compared with an independent visibility model computed from the poses',
     note='Room of less than 1e-3 area after a margin of 5e-3 may count as none; room more than 100 away is not looked for.')

prop('C31', 'The reported planning times are true',
     'On a clock that only moves forward, the four times a plan reports - clustering, admissible kernels, starshaped hulls, convexification - are never negative and add up to no more than the time the plan took; time lost within one of these activities, at whichever cluster and iteration, '
     'is reported for that activity and no other and changes nothing else about the plan. Convexification takes no time unless requested, and a plan that is given up reports no times.',
     ['histories', 'schedules', 'fault_sequences'],
     'All control-loop histories; stalls of any length at any call of the activities. ' + DOM,
     'Tests never look at times, and a real clock cannot be stalled at a chosen instant.',
     [CL, MI], [('accumulated times', CL + ': timing_vec'), ('clock', MI + ': tic, toc')],
     observe=['timing vector of a plan'],
     technique='seeded simulation under a virtual clock with stalls injected at chosen calls of the planner activities; each stalled plan is compared with its unstalled forked twin',
     note='Times agree within the resolution of the clock (0.2 ms); clocks that jump back are left to C06.')

prop('C32', 'On request joined regions keep off other obstacles where possible',
     'When other obstacles are to be excluded and a joined cluster leaves room for a kernel from which no member hides the robot, the goal or a corner of an obstacle that is clear of that member, the region formed for that cluster contains no corner of an obstacle that is clear of all its members. '
     'This holds at every stage of a plan, whatever the earlier plan it was started from.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories planned with exclude_obstacles. ' + DOM,
     'No test uses the option.',
     [CL, SH], [('exclusion of corners from the kernel', CL + ': adm_ker_obstacles')],
     observe=['clusters of each stage of a plan'],
     technique='seeded simulation of a control loop; regions of every stage are compared with an independent visibility model computed from the poses',
     note='Corners within 3e-3 of a member and rooms of less than 1e-2 area are not judged.')

prop('C33', 'A region giving up its reference point stays on its side of the way',
     'A cluster that is planned again with the same members, and whose area for choosing a reference point (the area common to all members, otherwise the part of the members from which none of them hides the robot or the goal) lies on both sides of the straight way from the robot to the goal, keeps its reference point on the side on which it was, even where the previous point itself cannot be kept. '
     'This holds at every step of any history of moving obstacles, robots, goals and warm starts.',
     ['histories', 'inputs', 'configurations'],
     'All control-loop histories without a workspace limit and without excluded obstacles. ' + DOM,
     'No test plans from an earlier plan and looks at the reference point; the side decides on which side the robot passes.',
     [CL], [('choice of the reference point', CL + ': compute_kernel_points')],
     observe=['reference points of clusters of successive plans'],
     technique='seeded simulation of a control loop with stale, lost and mangled earlier plans; the area to choose from is modelled independently and cut by the way',
     note='Parts below 2e-3 area, or with a centroid within 0.02 of the way, and previous points within 0.03 of it are not judged.')

prop('C34', 'A combined region moves where its obstacles move',
     'For a planned region that combines obstacles, and every direction from its reference point in which one member forms its boundary, the velocity it reports for a point in that direction is the velocity the point would have as part of that member: the linear velocity of the member plus its turning about its own position. '
     'This holds after every plan of any history of moving, turning and re-posed obstacles and warm starts.',
     ['histories', 'inputs'],
     'All control-loop histories, members that are ellipses and starshaped polygons, points on the boundary or farther out. ' + DOM,
     'No test asks a combined region for a velocity.',
     [PC, SO], [('velocity of the member at the boundary', PC + ': vel_intertial_frame'), ('rigid motion', SO + ': vel_intertial_frame')],
     observe=['vel_intertial_frame of the regions of a plan'],
     technique='seeded simulation of a control loop with a follower asking for velocities; the bounding member is found with independent geometry, its velocity from its pose and motion',
     note='Directions in which two parts are about equally far, or in which the hull added to the members bounds the region, are not judged.')

prop('C35', 'Planners working side by side do not disturb each other',
     'Several planners in one process, each in its own thread with obstacles, plans and a random stream of its own, each see exactly what they would see working alone, at any switch of threads inside the library and along any '
     'history of moving, replaced and re-posed obstacles and warm starts: the same outcome, iterations, clusters, regions, reference points and kernel points of every plan and the same answers of combined regions; and the '
     'identifiers given to obstacles, copies and combined regions are all different, whoever asked for them. None of them raises, hangs or waits forever.',
     ['schedules', 'histories', 'inputs'],
     'Two or three planners, same or different scenes, threads switched at any function start, jump, call or return in library code. Names and identifiers the library chooses are not compared with those of the planner alone. ' + DOM,
     'No test uses threads, and the operating system decides where they would be switched.',
     [CL, SH, OB, CG], [('identifiers', OB + ': Obstacle.id'), ('working memory of a plan', CL + ': cluster_and_starify'), ('working memory of a hull', SH)],
     observe=['plans made by concurrently running threads'],
     technique='seeded simulation of 2-3 planner threads under a cooperative scheduler which may switch at every function start, jump, call and return, with hot spots drawn per run; each planner alone in a forked twin is the oracle',
     note='Switch points are those of CPython 3.12 with a global lock; native code of numpy and GEOS is not interrupted.')

# ---- not applicable: pure functions without schedule, clock, fault or history ----
prop('C24', 'Cone operations equal the point sets they denote',
     'Membership of a point in a cone, the polygon of a cone, and the intersection of any list of cones (with or without a common apex) agree with the sets of points between the two rays, for convex and reflex cones alike.',
     ['inputs'], 'All apexes, directions and lists of cones in general position.',
     'Tests draw sixteen random cones and check nothing.',
     [CG], [('Cone', CG)], observe=['point_in_cone, polygon, intersection, list_intersection'],
     na='Pure function of its arguments: no state, clock, randomness, I/O, fault or interleaving for a simulator to control; property-based testing would be input generation in simulator vocabulary. Wrong cones that matter to a plan surface through C02/C04.')
prop('C25', 'Planar predicates and the gift-wrapping hull are exact up to the threshold',
     'Orientation, collinearity, betweenness and segment intersection agree with exact arithmetic outside the collinearity threshold, and the convex hull of any point set is the smallest convex polygon containing it, listed once around.',
     ['inputs'], 'All point sets in general position.', 'Tests of these helpers are empty.',
     [CG], [('orientation_val, is_between, get_intersection, convex_hull', CG)], observe=['return values'],
     na='Pure functions of their inputs; nothing for a scheduler or fault injector to decide.')
prop('C26', 'The kernel of a starshaped polygon is the set of points seeing all of it',
     'For every simple starshaped polygon the kernel returned equals the intersection of the inner half planes of its edges.',
     ['inputs'], 'All simple starshaped polygons.', 'One random polygon is constructed; its kernel is not looked at.',
     [SP], [('_compute_kernel', SP)], observe=['kernel()'],
     na='Deterministic sequential algorithm on one polygon (kernel computation); no schedule, time, fault or history enters. Kernels asked for along histories (also of nonconvex polygons) are judged in C10 and C22.')
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=list(p['observe']), hook_needed=p['hook']))
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    built = {n[:-3].upper() for n in os.listdir(os.path.join(HERE, 'dst', 'props')) if n.startswith('c') and n.endswith('.py')}
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif p['id'] not in built:
            na.append(dict(property=p['id'], reason='check not built yet'))
        else:
            checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                               thorough_cmd='./check.sh %s thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note']))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='Deterministic simulation with fault injection. No hooks in /repo: the seams (time module, numpy global random stream, stdout, '
                   'matplotlib show, thread switch points and call-failure points via sys.monitoring) are taken over from outside before the '
                   'library is imported, so the shipped code runs unmodified. Replay: ./check.sh replay <file>.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
