#!/usr/bin/env python3
"""writes properties.jsonl (the source of the property texts)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=files[min(i, len(files)-1)] if len(files)==len(symbols) else files[0]) for i,n in enumerate(symbols)])))
GT = "test/TestGeometry.cpp samples one or two shapes and only asserts that a point count is >= 0"
PT = "The planner tests run one environment per planner and assert only that a solution was reported and that sizes are >= 0"

p("G01", "Interval algebra is set algebra",
  "For every finite collection of closed real intervals, in any order and with overlaps, nesting, duplicates or touching ends, union returns a sorted list of disjoint intervals covering exactly the same reals, intersection returns exactly the common part (nothing when there is none), and the complement of inner intervals within an outer interval is exactly outer minus inner up to the end points of the inner intervals, in increasing order. Inputs are left unchanged.",
  ["inputs"], "every list of intervals over a bounded grid, every order, as union, intersection and complement arguments",
  "No test calls the interval operations at all; the planner tests reach only the lists their one scene produces.",
  ["src/datastructure/Interval.cpp", "include/hrm/datastructure/Interval.h"], ["Interval::unions", "Interval::intersects", "Interval::complements"])
p("G02", "2D boundary and Minkowski boundary points are exact",
  "Every point sampled on a superellipse boundary satisfies the shape's implicit equation at its pose, and every point of the Minkowski sum (difference) of a convex superellipse with an ellipse is a position at which the ellipse touches the shape from outside (inside) without overlapping it (leaving it), for every size, exponent, pose and sampling density. The sampled loop goes all the way round, so that no direction of the exact boundary is missed by more than the sampling error; where the ellipse is more curved than the shape it has to stay inside, the difference is exact up to sampling error.",
  ["inputs"], "all convex superellipses, ellipses, poses and sampling densities; both signs",
  GT, ["src/geometry/SuperEllipse.cpp", "src/util/ExponentialFunction.cpp"], ["SuperEllipse::getOriginShape", "SuperEllipse::getMinkSum2D"])
p("G03", "3D boundary and Minkowski boundary points are exact",
  "Every point sampled on a superquadric surface satisfies the shape's implicit equation at its pose, and every point of the Minkowski sum (difference) of a convex superquadric with an ellipsoid is a position at which the ellipsoid touches the shape from outside (inside) without overlapping it (leaving it), for every size, exponent pair, orientation and sampling density. The sampled surface covers every direction up to the sampling error; where the ellipsoid is more curved than the shape it has to stay inside, the difference is exact up to sampling error.",
  ["inputs"], "all convex superquadrics, ellipsoids, poses and sampling densities; both signs",
  GT, ["src/geometry/SuperQuadrics.cpp", "src/util/ExponentialFunction.cpp"], ["SuperQuadrics::getOriginShape", "SuperQuadrics::getMinkSum3D"])
p("G04", "2D tightly-fitted ellipse encloses the rotating ellipse",
  "The covering ellipse computed for two concentric ellipses contains both of them, and the tightly-fitted ellipse for a rotation between two heading angles contains the ellipse at both end angles and at every interpolated step, for every axis order, every pair of angles (negative and beyond pi included) and every step count. When one ellipse already contains the other, the cover is that ellipse, and the area of the cover never exceeds that of the smallest circle around both.",
  ["inputs"], "all pairs of ellipses, heading pairs and step counts",
  "TestGeometry computes one covering ellipse and only checks that its axes are non-negative.",
  ["src/geometry/TightFitEllipsoid.cpp"], ["getMVCE2D", "getTFE2D"])
p("G05", "3D tightly-fitted ellipsoid encloses the rotating ellipsoid",
  "The covering ellipsoid computed for two concentric ellipsoids contains both of them, and the tightly-fitted ellipsoid for a rotation between two orientations contains the ellipsoid at both ends and at every interpolated step of the shortest rotation, for every axis order, orientation pair (including either sign of a quaternion) and step count. When one ellipsoid already contains the other, the cover is that ellipsoid; its volume never exceeds that of the smallest sphere around both and its orientation is always a proper unit quaternion.",
  ["inputs"], "all pairs of ellipsoids, orientation pairs and step counts",
  "TestGeometry computes one covering ellipsoid and only checks that its axes are non-negative.",
  ["src/geometry/TightFitEllipsoid.cpp", "src/util/InterpolateSE3.cpp"], ["getMVCE3D", "getTFE3D"])
p("G06", "2D line and segment intersection with polygons is exact",
  "For every convex polygon given as a closed loop of points and every horizontal line, the reported intersections have the leftmost and rightmost point of the polygon on that line as their extremes, and are none exactly when the line misses it; a sweep line that passes exactly through a vertex or along an edge is no exception. For every segment, an intersection is reported if the segment properly crosses the polygon boundary and is not reported if the segment stays off it.",
  ["inputs"], "all convex polygons on a grid, all sweep heights, all segments on the grid, every starting vertex and both windings",
  "No test exercises intersections directly; scenes reach generic positions only.",
  ["src/geometry/LineIntersection.cpp"], ["intersectHorizontalLinePolygon2D", "isIntersectSegPolygon2D"])
p("G07", "3D line and mesh intersection is exact",
  "A line meets a triangle exactly when exact geometry says so, and the point returned lies on both. For every line and every closed convex surface mesh the intersections reported span the true entry and exit points, and none are reported exactly when the line misses the mesh, including lines through mesh vertices, edges and the poles of a sampled surface. (A line within the plane of a triangle is not specified for that single triangle.)",
  ["inputs"], "all lattice lines against all lattice triangles and against meshes of sampled surfaces",
  "No test exercises intersections directly; scenes reach generic positions only.",
  ["src/geometry/LineIntersection.cpp", "src/geometry/MeshGenerator.cpp"], ["intersectLineTriangle3D", "intersectVerticalLineMesh3D", "intersectLineMesh3D"])
p("G08", "Surface meshes are closed and faithful to their points",
  "The triangle mesh built from a sampled surface uses exactly the sampled points, refers only to existing points and leaves no hole: every face cell of the parameter grid is covered by two non-overlapping triangles. The solid mesh built for collision checking of a superquadric has all its vertices on the surface and covers its volume up to the sampling error, for every shape and density.",
  ["inputs"], "all grid densities and shapes",
  "No test looks at a mesh.", ["src/geometry/MeshGenerator.cpp"], ["getMeshFromParamSurface", "getMeshFromSQ", "getBoundary3D"])
p("G09", "Pairwise collision tests agree with geometry",
  "Whether two ellipses, two ellipsoids, or an ellipse (ellipsoid) and a superellipse (superquadric) are reported as separated or colliding agrees with their true geometric relation whenever it is not within tolerance of contact, for every size, pose and nesting, one inside the other included, and does not depend on the order of the arguments. The polynomial root finder returns exactly the roots of its polynomial.",
  ["inputs"], "all pairs of shapes and poses on a lattice, all polynomials of small degree on a coefficient lattice",
  "Only the OMPL tests reach these, through a few hundred random poses without an oracle.",
  ["src/util/EllipsoidSeparation.cpp", "src/util/EllipsoidSQCollisionFCL.cpp"], ["isEllipseSeparated", "isEllipsoidSeparated", "getRootsPolynomial", "isCollision", "setCollisionObjectFromSQ"])
p("G10", "Pose interpolation is exact at the ends and uniform between",
  "Interpolating between two poses with n steps gives n+1 poses (for n=0 just the two end poses), the first equal to the start and the last to the end up to quaternion sign, unit quaternions throughout, positions and joint values equally spaced, and orientations equally spaced along the shortest rotation. The vector distance is the Euclidean metric.",
  ["inputs"], "all pairs of poses on a lattice incl. equal and antipodal quaternions, all step counts 0..N, any joint count",
  "No test calls the interpolation; planners call it with one step count.",
  ["src/util/InterpolateSE3.cpp", "src/util/DistanceMetric.cpp"], ["interpolateSE3", "interpolateCompoundSE3Rn", "interpolateSlerp", "interpolateAngleAxis", "interpolateRn", "vectorEuclidean"])
p("G11", "Point-in-polyhedron tests agree with the simplices",
  "A point is reported inside a polyhedral region exactly when one of the region's simplices contains it (its barycentric coordinates, given by the simplex's inverse matrix, are all within 0..1), whatever the number, order, shape or overlap of the simplices; a region without simplices contains nothing, and the region itself is not changed.",
  ["inputs"], "all simplices over a lattice in every vertex order, unions in every order, all points around them",
  "No test calls it.",
  ["src/geometry/PointInPoly.cpp", "src/planners/HRM2DKC.cpp"], ["isPtInPoly"])
p("K01", "Rigid multi-body placement depends only on the last pose",
  "After any history of adding bodies and placing the robot, the base is at the last pose given and every link is at that pose composed with the link's own relative transform, in 2D and in 3D, independently of all earlier placements and of other robots, copies included; a body added after a placement takes its place at the next one. Shapes, sizes and relative transforms never change.",
  ["histories", "inputs"], "all histories of add-body, place and copy up to a depth over a pose alphabet",
  PT, ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp"], ["MultiBodyTree2D::robotTF", "MultiBodyTree3D::robotTF", "addBody"])
p("K02", "Articulated links follow the kinematic tree",
  "For every base pose and every joint vector, each link of an articulated robot is placed at base pose times the forward kinematics of its body in the robot description times the link's own offset, for serial and branching trees, whichever overload is used, and independently of earlier placements.",
  ["inputs", "histories"], "all joint vectors on a lattice, all base poses, all provided robot descriptions and small synthetic trees, histories of placements",
  PT, ["src/datastructure/MultiBodyTree3D.cpp", "src/util/ParseURDF.cpp"], ["MultiBodyTree3D::robotTF", "ParseURDF::getTransform"])
p("K03", "C-space obstacles of a multi-body robot are exact per body",
  "For a robot placed with any orientation, the Minkowski boundaries it reports against an obstacle (arena) list one closed boundary per body, base first, and each boundary consists of exactly the base positions at which that body, carried rigidly with the base, touches the obstacle from outside (the arena from inside), in 2D and 3D, wherever the robot itself is currently located.",
  ["inputs", "histories"], "robots with 0..2 links, orientations, locations and obstacles on a lattice",
  PT, ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp"], ["minkSum"])
p("K04", "Free segments of a sweep line are exactly the free set",
  "For every scene, the segments reported on each sweep line of one orientation cover exactly the part of the line that lies inside every C-space arena boundary, within the line's bounds, and outside every C-space obstacle; they are sorted, low end never above high end, and the representative point lies within its segment. Points added to improve connectivity lie inside the free segments, and repeating the computation or changing the number of lines does not leak results of an earlier computation.",
  ["inputs", "histories"], "all scenes of up to 3 obstacles on a lattice, sweep lines through special positions, repeated computations, in 2D and 3D",
  PT, ["src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp", "include/hrm/datastructure/FreeSpace-inl.h"], ["computeCSpaceBoundary", "computeIntersectionInterval", "computeFreeSegment", "enhanceFreeSegment"])
p("R01", "Every 2D roadmap vertex is a collision-free configuration",
  "Every configuration stored as a vertex of a 2D roadmap, with every planner variant (the one for kinematically connected slices with single-body robots), places every body of the robot at that position and heading without overlapping any obstacle and inside the arena, up to the boundary sampling error.",
  ["inputs", "configurations"], "robots, scenes, numbers of slices and sweep lines on a lattice, before and after refinement",
  PT, ["src/planners/HRM2D.cpp", "src/planners/HRM2DKC.cpp", "include/hrm/datastructure/FreeSpace-inl.h"], ["HRM2D::constructOneSlice", "HRM2D::generateVertices"])
p("R02", "Every 3D roadmap vertex is a collision-free configuration",
  "Every configuration stored as a vertex of a 3D roadmap, for rigid and articulated robots and every planner variant, places every body of the robot at that position, orientation and joint vector without overlapping any obstacle and inside the arena, up to the surface sampling error.",
  ["inputs", "configurations"], "robots, scenes, orientation sets, joint samples and sweep line counts on a lattice; every answer of the random source from a small alphabet",
  PT, ["src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "include/hrm/planners/HRM3DAblation-inl.h"], ["HRM3D::constructOneSlice", "HRM3D::generateVertices", "ProbHRM3D::generateVertices"])
p("R03", "Same-orientation edges are collision-free translations",
  "Every roadmap edge between two vertices of equal orientation (and equal joints) is a straight translation that keeps every body of the robot clear of every obstacle along its whole length, up to the boundary sampling error, in 2D and 3D, before and after refinement and with bridge vertices.",
  ["inputs", "configurations"], "robots, scenes, slices and sweep lines on a lattice",
  PT, ["include/hrm/planners/HighwayRoadMap-inl.h", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"], ["connectOneSlice2D", "connectOneSlice3D", "isSameSliceTransitionFree", "bridgeVertex", "connectExistSlice"])
p("R04", "Orientation-changing edges in 2D are collision-free",
  "Every 2D roadmap edge between different headings is a motion that keeps every body of the robot clear of every obstacle at all its intermediate steps, and only neighbouring headings (the last with the first included) are joined.",
  ["inputs", "configurations"], "robots, scenes, slices, sweep lines and step counts on a lattice",
  PT, ["src/planners/HRM2D.cpp", "src/geometry/TightFitEllipsoid.cpp"], ["connectMultiSlice", "bridgeSlice", "isMultiSliceTransitionFree", "isPtInCFree"])
p("R05", "Orientation-changing edges in 3D are collision-free",
  "Every 3D roadmap edge between different orientations or joint vectors is a motion that keeps every body of the robot clear of every obstacle at all its intermediate steps, for rigid, articulated and explicit-collision-check planner variants.",
  ["inputs", "configurations"], "robots, scenes, orientation sets, joint samples and step counts on a lattice",
  PT, ["src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "include/hrm/planners/HRM3DAblation-inl.h"], ["connectMultiSlice", "bridgeSlice", "isMultiSliceTransitionFree", "computeTFE"])
p("R06", "The roadmap graph is well formed",
  "In every roadmap each edge joins two different existing vertices, there is one weight per edge and it equals the Euclidean distance of its end vertices, every vertex has the configuration dimension of its planner, with unit quaternions in 3D, and lies on a sweep line of one of its orientations, and the C-space boundaries recorded are one set per orientation with one boundary per body and obstacle (arena) pair.",
  ["inputs", "configurations", "histories"], "all planner variants over the scene lattice, after planning and refinement",
  PT, ["include/hrm/planners/HighwayRoadMap-inl.h", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"], ["buildRoadmap", "generateVertices", "connectMultiSlice"])
p("R07", "Graph search is complete and optimal",
  "On every roadmap the search reports a solution exactly when some attachment vertex of the start is connected to some attachment vertex of the goal; the vertex sequence reported then follows roadmap edges from the one to the other, is a shortest path by total edge weight between its ends, and the reported cost is the sum of the weights of its edges.",
  ["inputs"], "all weighted undirected graphs up to a size over a weight alphabet, with every placement of start and goal, and every roadmap built on the scene lattice",
  PT, ["include/hrm/planners/HighwayRoadMap-inl.h"], ["search"])
p("R08", "Start and goal attach to the nearest vertices within range",
  "Start and goal are attached only to existing vertices whose orientation is within the search radius of the orientation closest to theirs, at most as many as the neighbour limit; for each such orientation (every one, when the limit allows) the vertex chosen is the nearest one of that orientation, provided that it is within the allowed number of sweep line gaps. An empty roadmap yields no attachment and no solution.",
  ["inputs", "configurations"], "roadmaps on a lattice, queries on a lattice, neighbour limits and radii",
  PT, ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"], ["getNearestNeighborsOnGraph"])
p("R09", "A returned solution is a well-formed path",
  "Whenever a plan is reported solved, the solution path starts at the requested start, ends at the requested goal, visits in between exactly the vertices of the reported index sequence, and the interpolated path begins at the start, ends at the goal and passes through them in order with finite values, unit quaternions and no step longer than the longest leg; when it is not solved, no path is reported.",
  ["inputs", "configurations"], "all planner variants over the scene lattice, with start equal to goal and both on the same vertex included",
  PT, ["include/hrm/planners/HighwayRoadMap-inl.h", "src/planners/HRM3D.cpp"], ["getSolutionPath", "getInterpolatedSolutionPath", "plan"])
p("R10", "Refinement only extends the roadmap, soundly",
  "Refining a roadmap that did not yield a solution doubles the sweep lines, keeps every earlier vertex and edge unchanged, and adds only collision-free vertices and edges in the same orientations, connected to the earlier ones; it terminates without error for any number of rounds, any slice count and any moment at which the time limit falls.",
  ["inputs", "histories", "fault_sequences"], "scenes without solution, every number of rounds up to a bound, every expiry moment of the clock",
  "No test scene needs refinement, so this code is never run by the tests.",
  ["include/hrm/planners/HighwayRoadMap-inl.h", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"], ["refineExistRoadmap", "connectExistSlice", "constructOneSlice"])
p("R11", "Planning ends by the time limit and accounts its time",
  "For every sequence of clock readings, planning stops after the first unit of work (initial roadmap, one refined slice, one sampled slice) at whose end the accumulated time exceeds the limit, or earlier when solved; reported build and search times are non-negative, never shrink, and add up to the reported total.",
  ["fault_sequences", "schedules"], "every placement of up to two long delays among the clock readings of a plan",
  "Tests use the real clock and limits that are never reached.",
  ["include/hrm/planners/HighwayRoadMap-inl.h", "src/planners/ProbHRM3D.cpp"], ["plan", "refineExistRoadmap"])
p("R12", "Every small parameter setting is handled",
  "Planning completes without error and with finite vertices for every admissible combination of small parameters: one, two or more orientations, one or more sweep lines in each direction, one or more interpolation steps, robots without links, empty obstacle lists, and scenes in which no vertex is free.",
  ["configurations"], "the full product of small parameter values, for every planner",
  "Tests use one parameter set per planner.",
  ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"], ["sampleOrientations", "sweepLineProcess", "connectMultiSlice"])
p("R13", "Planning is a function of its inputs",
  "Two planners given equal inputs and equal random and clock readings produce identical roadmaps and results, whatever other planners ran before or in between; the caller's robot, arena, obstacles and request are never modified, and a planner keeps working after the originals are destroyed (planner objects themselves are not copied). Querying a slice's free segments for a given boundary depends only on that boundary.",
  ["histories"], "histories of construct, plan, query, copy and destroy on two planners up to a depth",
  PT, ["include/hrm/planners/HighwayRoadMap-inl.h", "include/hrm/datastructure/FreeSpace.h", "include/hrm/planners/HRM2D.h", "include/hrm/planners/HRM3D.h"], ["HighwayRoadMap", "FreeSpaceComputator", "getFreeSegmentOneSlice"])
p("R14", "The roadmap covers its sweep lines",
  "In every orientation, each configuration on a sweep line that is clearly collision-free is connected by a straight free translation to a vertex of its own sweep line, vertices of the same or of neighbouring sweep lines that clearly see each other are joined by edges, and two orientations that are to be joined have at least one edge whenever some pair of their vertices within reach has a clearly free motion, in 2D and 3D.",
  ["inputs", "configurations"], "robots, scenes, orientations and sweep lines on a lattice; every sweep line probed at equidistant points, every pair of vertices",
  "The tests accept a roadmap of any size, as long as some path is found in the one scene.",
  ["include/hrm/planners/HighwayRoadMap-inl.h", "include/hrm/datastructure/FreeSpace-inl.h", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"], ["connectOneSlice2D", "connectOneSlice3D", "generateVertices", "connectMultiSlice", "sweepLineProcess"])
p("O01", "Sampling-planner state validity is exactly collision-freedom",
  "A state is valid for the sampling-based planners exactly when no body of the robot placed at that state overlaps any obstacle (outside a contact tolerance), in 2D, 3D and articulated 3D, independently of which states were checked before.",
  ["inputs", "histories"], "states on a lattice against robots and scenes, sequences of checks",
  "The tests plan with random samples and have no oracle for validity.",
  ["src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp", "src/planners/ompl_interface/OMPL3DArticulated.cpp"], ["isStateValid", "isSeparated", "transformRobot"])
p("O02", "States and configuration vectors convert losslessly",
  "A configuration vector inside the bounds that is written into a planner state and read back is unchanged (heading modulo a full turn, quaternion up to sign and normalisation), component by component, in 2D, 3D and articulated 3D; and the planner searches exactly the given bounds: a state is within its space exactly when every coordinate is within its own bounds and every joint within a quarter turn either way.",
  ["inputs"], "all vectors on a lattice of positions, orientations and joint values",
  "The tests never compare a state with the vector it came from.",
  ["src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp", "src/planners/ompl_interface/OMPL3DArticulated.cpp"], ["setStateFromVector", "setVectorFromState"])
p("O03", "Sampling-planner results describe the last query only",
  "After every plan call, whatever calls came before, the reported status, path, interpolated path, vertices and edges describe that call: a solved path starts at the start, ends at the goal and has only valid states, an unsolved query reports no path, and every edge refers to existing vertices.",
  ["histories"], "histories of solvable and unsolvable plan calls up to a depth for several planners and samplers",
  "Every test plans once per object and asserts nothing about the reported path.",
  ["include/hrm/planners/ompl_interface/OMPLInterface-inl.h", "src/planners/ompl_interface/OMPL2D.cpp", "src/planners/ompl_interface/OMPL3D.cpp"], ["plan", "getSolution"])
p("C01", "Numeric CSV files are read faithfully",
  "Reading a numeric CSV file yields one record per data line, in order, with every field equal to the double its decimal text denotes (in the normal range); comment and blank lines are skipped, a missing final newline or a trailing comma changes nothing, and a missing file is reported as an error. Values keep double precision.",
  ["inputs"], "all files over a small token and line alphabet up to a length",
  "Tests read only the shipped resource files and never compare the numbers.",
  ["src/util/Parse2dCsvFile.cpp"], ["parse2DCsvFile"])
p("C02", "Scene conversion preserves geometry",
  "Converting a human-written scene (geometry and start/goal with axis-angle rotations) to planner configuration keeps every shape, exponent, position, heading and joint value and turns each rotation into the unit quaternion of the same rotation, for every record, robot type and dimension whose settings list the robot's joints; loading it back gives the same bodies, arena, obstacles and end points in order.",
  ["inputs", "configurations"], "records on a value lattice, every robot type, both dimensions, all shipped scenes",
  "Tests convert one scene per planner and never compare the numbers.",
  ["src/test/util/ParsePlanningSettings.cpp", "include/hrm/test/util/ParsePlanningSettings.h"], ["parsePlanningConfig", "parseGeometricModel", "parseStartGoalConfig", "loadVectorGeometry", "loadRobotMultiBody3D"])
p("C03", "Planning parameters derived from a scene fit the scene",
  "The planning parameters derived from a scene give planning bounds that keep the robot's base (its first axis being the longest) inside every arena extent, a positive number of sweep lines per direction that grows with the scene and shrinks with the smallest obstacle, and leave explicitly chosen sweep line and C-slice counts alone.",
  ["inputs"], "arenas, robots and obstacle sets on a lattice",
  "Tests never look at the derived parameters.",
  ["src/test/util/ParsePlanningSettings.cpp"], ["defineParameters", "computeObstacleMinSize"])
p("C04", "Stored results read back as the same graph and path",
  "The vertex, edge, path and interpolated path files written for a plan hold one line per item in order, with exactly the edges and indices of the roadmap and the coordinates up to printing precision, for every graph and path, the empty ones included; storing under one name never touches files of another.",
  ["inputs", "histories"], "all small graphs and paths, histories of stores",
  "Tests never read the stored files back.",
  ["src/test/util/DisplayPlanningData.cpp"], ["storeGraphInfo", "storePathInfo"])
p("C05", "The Python geometry module agrees with the C++ library",
  "For every superquadric and every multi-body robot, the surface points and body poses computed by the Python demo module equal those of the C++ library for the same parameters, after any history of placements, for joint axes along coordinate axes.",
  ["inputs", "histories"], "shapes, poses and placement histories on a lattice",
  "The two Python tests only check that plotting does not raise.",
  ["demo/python/SuperQuadrics.py", "demo/python/MultiBodyTree.py"], ["SuperQuadrics.get_points", "MultiBodyTree.transform"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
