"""what each check builds and what it covers"""
CHECKS = {}
NOT_APPLICABLE = {}
TECH = "bounded-exhaustive stateless model checking of the real code (depth-first enumeration of every choice sequence)"


def c(pid, group, mode="san", src=None, technique=TECH, note="", **kw):
    CHECKS[pid] = dict(src=src or pid + ".cpp", group=group, mode=mode, technique=technique, note=note or kw.get("bounds", ""), **kw)


c("G01", "data", bounds="all ordered lists of up to 3 (thorough 4) intervals over a 5-point grid (15 intervals, degenerate ones included), 6 outer intervals, raw and united inner lists; membership probed at, between and just beside all grid points; long lists (up to 150 intervals in 4 patterns, 4 orders, 3 scales)",
  assumptions=["interval ends outside the grid behave like grid ends: only comparisons are made"])
c("G02", "geom", bounds="6 sizes x 5 exponents (0.1..1.7) x 6 headings x 2 positions x 2 (thorough 5) densities; each with 4 ellipses x 4 headings x 2 positions x sum/difference, repeated after setter histories and after calls for the opposite sign; every boundary point judged",
  assumptions=["difference is exact only where the ellipse rolls freely inside (checked numerically); elsewhere only 'no point strictly inside' is required"])
c("G03", "geom", bounds="5 sizes x 5 exponent pairs x 3 orientations (one with negative real part) x 2 positions x density 8 (thorough also 11, 20); each with 3 ellipsoids x 2 orientations x sum/difference, repeated after setter histories; every surface point judged",
  assumptions=["difference is exact only where the ellipsoid rolls freely inside (checked numerically); elsewhere only 'no point strictly inside' is required"])
c("G04", "geom", bounds="cover: 8x8 sizes x 12x12 headings (negative, beyond pi, nearly equal); tightly fitted: 8 sizes x 12x12 headings x 0..7, 20, 57 steps")
c("G05", "geom", bounds="cover: 7x7 sizes x 9x9 orientations (both quaternion signs, half turns); tightly fitted: 7 sizes x 9x9 orientations x 1..7, 20, 41 steps",
  assumptions=["at exactly half a turn the shortest rotation is not unique: only the two ends are judged"])
c("G06", "geom", bounds="every strictly convex polygon on a 4x4 (thorough 5x5) lattice, every starting vertex, both windings, open/closed/doubled vertex lists, up to four frames; every lattice height and quarter height; every segment between lattice points for every vertex order of the open list and one of each other (half-lattice points once per polygon); from every outer lattice point segments ending 1e-4..0.03 of their length behind or before points of every edge; plus sampled boundaries with lines at every sample height",
  assumptions=["a segment that only touches the boundary without crossing is not specified"])
c("G07", "geom", bounds="every triangle with vertices on a 3x3x3 lattice x lines from a lattice in 17 directions x 3 frames, exact integer oracle; 6 convex polytopes x 2 triangulations x 3 face orders x lines through every lattice point (vertices, edges, faces included); sampled surfaces with lines through every vertex, edge middle and beside",
  assumptions=["a line within the plane of a triangle is not specified for that triangle alone (it is for the mesh)"])
c("G08", "geom", bounds="grid topology for every density 2..20 (thorough 50); sampled and Minkowski surfaces of 3 sizes x 6 exponent pairs x 3 densities, 156 (thorough 606) rays each; solid meshes of the same shapes, 2 densities, 2 poses")
c("G10", "geom", bounds="10x10 orientations (both signs, half turns, nearly equal) x 3x3 positions x 0..8, 50, 128 steps x 0..3 and 9 joints")
c("G11", "geom", bounds="every simplex over 10 (thorough 12) lattice vertices in every vertex order, pairs of overlapping or disjoint simplices, cubes of 5, 6 and 18 simplices in every order, the empty region; 4 scales and offsets; every half-lattice point around, against exact integer orientation tests",
  assumptions=["a point exactly on the boundary is judged only where the inverse matrices are exact in binary"])
c("G09", "geom", bounds="ellipses and ellipsoids: 3x3 shapes x 5 size ratios (1:20 .. 40:1) x orientations x directions x 9 distances from concentric to 4x contact (0.5% to either side of contact included); ellipse/ellipsoid against superellipse/superquadric collision meshes; polynomials of degree 1..4 from every multiset of 6 real roots with an optional complex pair")
c("K01", "data", bounds="every history of up to 5 (thorough 6) operations out of add-body (3 bodies), place (4 poses), copy, assign on two robots, 2D and 3D, from 2 base poses, on top of 0, 5 and 12 links; all observations compared with a reference model after every operation",
  assumptions=["a body added after a placement takes its place at the next placement: its pose before that is not specified"])
c("K02", "data", bounds="snake, tree and 9 synthetic descriptions (chains, branches, joint-name orders, fixed/prismatic/continuous joints, rolled frames); every joint vector over 4 values up to 4 joints (one, two, thorough three joints moved and all-moved patterns for the 9-joint tree) x 5 base poses x 3 overloads, alone and after an earlier articulated or rigid placement",
  assumptions=["joint vectors list joints depth first, children by joint name, as KDL does (assigned by the library users' URDF order in all shipped robots)"])
c("K03", "data", bounds="robots of 0..3 and 7 links (3D: 0, 1, 3, 6) x 6 headings (2D; 4 orientations in 3D) x 3 (2) locations x placed once or twice or as an articulated arm x 3 obstacle shapes and an arena; every boundary point of every body judged with support functions, plus directional coverage")
c("K04", "data", bounds="2D: every set of up to 3 of 5 overlapping/nested/wall obstacles, both orders, 3 arenas (one pair), 0/1 link, 3 headings, 4 bounds, lines through every sampled vertex height, tangents, beside and outside, after 0..2 earlier computations with other headings and line counts; 3D: sets of up to 2 (thorough 4) of 4 obstacles, planes and lines through surface vertices and edges; free set recomputed from the boundaries and probed at every end, beside it and between",
  assumptions=["a line that only grazes the outline of a 3D surface mesh may be reported either way"])

B2 = "2D lattice: 11 scenes (empty, blocks, gap, wall, corridor, overlapping, crowded, round and double arenas, no room) x 4 robots (1..3 bodies) x 1,2,3,6 (thorough also 4,9) headings x 1..14 (25) lines x bounds inside/beyond the arena x 1,2,5 (1..8) steps x 0..1 (2) refinement rounds x 50 (30,50,100) boundary points, and the 10 shipped scenes x 4 shipped robots; bodies placed by the oracle, separation by exact support functions of the (swept) bodies; tolerance 1.2 x the sampling error computed from the exact shapes"
B3 = "3D lattice: 9 scenes (empty, block, gap, wall, varied, overlapping, round and double arenas, no room) x 3 rigid robots x 5 (6) orientation sets (predefined with either sign and half turns; random source) x 4 (5) line grids x bounds x 0..1 refinement rounds, for the rigid and the explicit-collision planner; 3 articulated robots x 2 (3) line grids x 2..4 (5) sampled slices x random sources (spread over the whole range, or narrowed so that slices lie close together) for the probabilistic ones, with goals in and out of reach; 9 shipped scenes x 3 shipped robots"
RA = ["penetration below 1.2 x the sampling error of the boundary (50 points in 2D; 16..30 squared in 3D) is the sampling error the property allows"]
c("R01", "plan", mode="fast", src="R2D.cpp", defs=["WHAT=1"], bounds=B2, assumptions=RA)
c("R02", "plan", mode="fast", src="R3D.cpp", defs=["WHAT=2"], bounds=B3, assumptions=RA)
c("R03", "plan", mode="fast", bounds=B2 + "; " + B3, assumptions=RA)
c("R04", "plan", mode="fast", src="R2D.cpp", defs=["WHAT=4"], bounds=B2, assumptions=RA + ["between two of its numPoint steps a motion is not judged: the step count is the user's resolution"])
c("R05", "plan", mode="fast", src="R3D.cpp", defs=["WHAT=5"], bounds=B3, assumptions=RA + ["between two of its numPoint steps a motion is not judged: the step count is the user's resolution"])
c("R06", "plan", mode="fast", bounds=B2 + "; " + B3 + "; density 12 in 3D")
c("R14", "plan", mode="fast", bounds=B2 + "; " + B3 + "; 17 (41) points per line in 2D, 9 (23) in 3D",
  assumptions=RA + ["'clearly free' leaves a margin of 3% of the arena and 0.8 of the body's reach at the arena boundary (corners the body cannot reach are sampled coarsely); turns count as clearly free when discs (balls) of 1.6 times the reach of every body are clear at every step (the bodies themselves for the explicit-collision planner)"])
c("R07", "plan", mode="fast", bounds="every graph of up to 5 (thorough 6) vertices (all edge subsets, doubled edges, Euclidean and longer weights) in 3 layouts (generic, collinear, coincident) x every attachment list of up to two start and goal vertices; searches repeated while the graph grows; every roadmap of the 2D lattice",
  assumptions=["edge weights are at least the Euclidean distance, as the planners produce them"])
c("R08", "plan", mode="fast", bounds="every roadmap of the 2D and the 3D lattice (densities 20 and 12) x 45 (125) or 24 queries over the bounds, at and beside vertices, either quaternion sign x neighbour limits 1, 2, 10, 100 x radii 0, 0.15, 0.7, pi/2, 4",
  assumptions=["a query equally far from two orientations may take either as the closest", "headings of queries are within -pi..pi"])
c("R09", "plan", mode="fast", bounds="every roadmap of the 2D and the 3D lattice (densities 20 and 12) x start and goal apart, swapped with other search limits, equal, close (3D: with the opposite quaternion sign), and exactly on vertices of the roadmap")
c("R10", "plan", mode="fast", bounds="queries that cannot be solved on the 2D lattice (no. of steps >1) and the rigid 3D lattice up to 9 lines: the time limit falls after each of the slices of up to 2 (3) refinement rounds in turn, every graph compared with the one before; articulated planners around slices 59..62 (thorough ..121), where their refinement begins", assumptions=RA)
c("R11", "plan", mode="fast", bounds="6 planners x 1..3 initial slices x up to two long delays (7.5 and 20 units, either order) at any of the first slices and searches x limits just before and after the end of each of the first 5 units of work x the query solvable from search 1..5 or never; the virtual clock moves only with this work",
  technique=TECH + " under a virtual clock")
c("R12", "plan", mode="san", bounds="2D: 4 robots x 1..2 arenas x 0..2 obstacles or no room x 1..4 (5) headings x 1,2,3,5 lines x 1..3 steps x 0..1 refinement rounds x 12, 5 (4) boundary points, both planners; 3D: 4 planners x 3 robots x the same scenes x 1,2,4 orientations x 1..3 x 1..3 lines x 1..2 steps x 0..1 rounds (1..2 sampled slices); built with address and undefined-behaviour sanitizers and checked containers",
  assumptions=["random orientations are left out here (R02 and R05 include them); at least one arena, one orientation, one line and one step"])
c("R13", "plan", mode="fast", bounds="6 planners x 3 scenes/robots, another planner of 6 kinds x 2 (thorough 3) scenes whose construction, planning and destruction fall at every combination of 6 points of the first one's life (two of them between slices inside its plan call), originals kept, changed or destroyed after construction, 3 orders of free-segment queries (quick: a quarter of these combinations for planners that differ, all for equal ones); reference and history each in a fresh process",
  assumptions=["planner objects themselves are not copied", "one thread; a planner's clock and random sources advance only with its own work"])
c("O01", "ompl", bounds="2D: 3 robots x 5 scenes (ellipse, superellipse, mixed, none) x 6 headings x 3 planner histories x robots placed elsewhere or not; 3D: 2 robots x 4 scenes x 4 (thorough 6) orientations, same histories; articulated: 5 synthetic descriptions, snake and tree x 4 scenes x 4 orientations x 3 joint patterns; positions on a lattice plus approaches of every body to every obstacle at 0..1.1 of contact, re-checked in reverse order",
  assumptions=["overlap shallower than 15% of a non-elliptical obstacle's size is not judged (its collision mesh is a sampling); gaps within 0.002 of contact are not judged", "random sampling inside the OMPL library during the preparatory plan call does not influence later validity answers"])
c("O02", "ompl", bounds="2D: 4x4 bounds x all positions over 4-5 (thorough 7) values per axis including both bounds x 10 headings (beyond a turn too), 3D: 4x4x4 bounds, positions as before x 80 quaternions of both signs, also slightly off unit length; articulated: 3 synthetic descriptions, snake and tree, joint values up to both limits; new and reused states, successive start and goal pairs, states just beside every end of every coordinate and joint range, set up once, twice or not yet")
c("O03", "ompl", mode="fast", technique="bounded-exhaustive stateless model checking of the real code (depth-first enumeration of every choice sequence; scripted planner with all answers enumerated, and OMPL's planners under a virtual clock with thread hand-over at every clock reading explored up to a deviation bound)",
  bounds="2D, 3D, articulated 3D; (a) every history of 2 (thorough 3) plan calls over a scripted planner: 2-3 queries x 7 answers (exact, approximate, exact but late, timeout, invalid start, crash, exception) x path lengths x planner data of 0..3 vertices per call; (b) LazyPRM, RRT, RRTConnect, EST, SBL, KPIECE x samplers x 2 (thorough 6) random streams x 2 budgets x all pairs of 6 queries x set up again in between or not; PRM and its second thread under a scheduler: turns at every clock reading with every single deviation (thorough: every two) from strict alternation in the first 40 (60) points",
  assumptions=["between two readings of the clock the two threads of OMPL's PRM do not interact except under its own mutex", "interpolated states may graze an obstacle by less than OMPL's own motion resolution"])
c("C01", "geom", bounds="every line of up to 3 (thorough 4) of 14 number texts with 5 line ends; every file of up to 5 (thorough 6) lines over data, comment, blank and trailing-comma lines, both line end conventions, with and without final newline; records of up to 8192 fields; missing files in sequences of 3",
  assumptions=["fields are decimal numbers in the normal range of a double; non-numeric fields are not specified"])
c("C02", "io", bounds="0..3 geometry records on value lattices x 8 axes (any length) x 8 angles, 2D and 3D, three densities, over older files; 0..3 start/goal records x 5 robot types with their joints; every shipped scene x every shipped robot (2D: all pairs of conversions in sequence) x 4 orientation files",
  assumptions=["settings list at least the joints of the robot they are used with"])
c("C03", "io", bounds="2D and 3D: 3-4 arena extents per axis x centres x 3 base sizes x obstacle sets of 0..3 with the smallest axis in every place x 3x3 chosen counts x chosen orientations x 0,1,7 predefined ones; monotonicity over 5x5 arenas x 4 obstacle sizes",
  assumptions=["the base's first axis is its longest, as in all shipped robots", "the arena is larger than twice the base"])
c("C05", "data", mode="fast", technique="bounded-exhaustive stateless model checking of the real code (depth-first enumeration of every choice sequence; the Python module runs as a coprocess in lockstep with the library)",
  bounds="surface points: 4 shapes x 5x5 (thorough 6x6) exponents x 10 (16) orientations of both signs x 3 (4) positions x grids of 2, 3, 5, 9, 20 (30); rigid robots: 1..4 bodies x 3 body sets x 3 ways of creation, beside a second robot, every history of 3 (4) placements over 5/3 poses, 2 robots and 2 calls, then the points of each body; articulated: 8 synthetic descriptions, snake and tree x 2 body sets x 3 ways of creation, every history of 2 (3) placements over 4/2 poses, 3-6 joint patterns, 2 calls",
  assumptions=["joint axes along coordinate axes (the Python robotics toolbox turns the frame of a link whose axis is oblique)", "sampling parameters that differ by the library's rounding of pi (3.1415926) are the same parameters", "at least two points per parameter"])
c("C04", "io", bounds="every history of up to 3 (thorough 4) stores of graphs (0, 1, 4, 23 vertices; three edge patterns) and paths (0..23 states, with and without interpolation, index lists) under 3 names; all files of the directory compared after every store")
