#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
MATH = "include/Simu/math/"
PHY = "include/Simu/physics/"
SRC = "src/Simu/"


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("M01", "Matrix and vector arithmetic is ordinary linear algebra",
     "For every matrix or vector size and every finite entries, sums, differences, scalar and matrix products, element-wise products, transposes, row and column views, identity and diagonal construction, dot and cross products, norms, normalisation and perpendiculars give the mathematically defined result up to rounding. Comparisons and their all/any reductions, and element-wise minimum, maximum and clamping, act component by component; assignment forms give the same result as the plain forms, also when an operand aliases the target.",
     ["inputs"], "all matrix shapes used by the library (1..6 rows/columns, square and not), all finite float/double/int entries",
     "The unit tests check a few literal matrices; a wrong index for one shape or one aliasing case is invisible to them.",
     [MATH + "Matrix.hpp", MATH + "Matrix.inl.hpp"],
     [("matrix storage and operators", MATH + "Matrix.hpp"), ("operator bodies", MATH + "Matrix.inl.hpp")])

prop("M02", "Linear solvers return the solution of the system they are given",
     "Solving a well-conditioned square system returns the vector satisfying it, inverting returns the two-sided inverse, and the reusable solver agrees with the one-shot one and reports its original matrix, for every size. A matrix the reusable solver reports as invalid is singular or numerically close to it, and a well-conditioned matrix is never reported invalid.",
     ["inputs"], "all finite square matrices of size 1..6 of moderate condition number, all right-hand sides, including matrices that need row exchanges",
     "Tests solve two or three literal systems; pivoting and back-substitution errors depend on the sparsity pattern and ordering of the input.",
     [MATH + "Matrix.hpp", MATH + "Matrix.inl.hpp"],
     [("elimination with pivoting", MATH + "Matrix.inl.hpp"), ("solver objects", MATH + "Matrix.hpp")])

prop("M03", "Complementarity and bounded solvers return certified solutions",
     "For every symmetric positive definite 2x2 problem the complementarity solver returns the non-negative vector x such that A x - b is non-negative and orthogonal to x. The iterative bounded solver, on the symmetric positive definite systems constraints produce, ends and returns a point inside the bounds that satisfies the complementarity conditions up to its tolerance.",
     ["inputs"], "all symmetric positive definite matrices of moderate condition number, all right-hand sides, all initial guesses and one-sided bounds",
     "Tests use a handful of matrices; the four active-set cases and their tie-breaks are only reached by specific sign patterns.",
     [MATH + "Matrix.hpp", MATH + "Matrix.inl.hpp"],
     [("2x2 LCP solver and projected Gauss-Seidel", MATH + "Matrix.inl.hpp")])

prop("M04", "Rotations and transforms compose and invert as rigid motions",
     "Composing translations, rotations and transforms in any order is the same as applying them one after the other to a point, agrees with the 3x3 homogeneous matrix, and a transform followed by its inverse leaves every point where it was. Applying a transform preserves distances and handedness, and the orientation angle accumulates additively without being wrapped or lost, however many full turns are made.",
     ["inputs", "histories"], "all chains of translations and rotations with bounded magnitude and any angle, including several full turns",
     "The suite has no test that composes long chains or compares against the matrix form.",
     [PHY + "Transform.hpp"],
     [("rotation, translation and transform types", PHY + "Transform.hpp")])

prop("M05", "Interval and bounding-box predicates are exact",
     "For all finite coordinates two intervals or boxes overlap exactly when they share at least one point (touching counts), one contains another exactly when every point of it is inside, and the combination of two boxes is the smallest box containing both, with invalid (empty) boxes overlapping nothing and neutral for combination. A box built from a set of points is the tightest box around them, and is invalid when the set is empty.",
     ["inputs"], "all finite box and interval coordinates including touching, nested, degenerate, nearly equal and empty ones, in any argument order",
     "Tests use small integers, for which any rounding is exact; a predicate that rounds or mishandles degenerate boxes makes broad-phase collisions disappear.",
     [PHY + "BoundingBox.hpp", SRC + "physics/BoundingBox.cpp", MATH + "Interval.hpp"],
     [("interval predicates", MATH + "Interval.hpp"), ("box predicates and construction", SRC + "physics/BoundingBox.cpp")])

prop("M06", "Polygon area, centroid, inertia and orientation are geometric facts",
     "For every simple polygon the reported area, centroid and second moment about the centroid are those of the enclosed region up to rounding, whatever the vertex order or starting vertex, and zero-area shapes are reported degenerate. A constructed polygon is always positively oriented with the same vertices, and walking its edges visits each edge exactly once with outward normals and consistent next/previous neighbours.",
     ["inputs"], "all simple polygons with 3..16 vertices, either orientation, any start vertex, convex or not, at moderate distance from the origin",
     "Tests use the unit square and one box with a hole.",
     [MATH + "Geometry.hpp", MATH + "Geometry.inl.hpp", MATH + "Polygon.hpp", MATH + "Polygon.inl.hpp", MATH + "Edges.hpp"],
     [("area and moment integration", MATH + "Geometry.inl.hpp"), ("reorientation", MATH + "Polygon.inl.hpp"), ("edge iteration", MATH + "Edges.hpp")])

prop("M07", "Closest points on segments and triangles are the nearest points",
     "For every segment or triangle and query point, the reported closest point lies on the segment or in the triangle and no point of it is nearer to the query. The barycentric coordinates (normalised to one for a segment, to the area for a triangle) reproduce the point, and clipping a segment to a half-plane or finding the farthest vertex in a direction returns the exact geometric answer.",
     ["inputs"], "all non-degenerate segments and triangles with either vertex order and all query points (inside, outside, on borders, in every vertex and edge region)",
     "Tests place a few query points around one triangle.",
     [MATH + "BarycentricCoordinates.hpp", SRC + "math/BarycentricCoordinates.cpp", MATH + "Geometry.hpp", SRC + "math/Geometry.cpp", MATH + "Edges.hpp"],
     [("segment and triangle regions", SRC + "math/BarycentricCoordinates.cpp"), ("edge clipping", MATH + "Edges.hpp")])

prop("M08", "The collision test decides whether two convex shapes intersect",
     "For every two convex shapes, asking whether they collide always ends and answers yes exactly when the shapes share a point (touching counts), except within rounding of the touching configuration. The answer does not depend on argument order, vertex order, starting vertex or the initial search direction.",
     ["inputs"], "all pairs of convex polygons with 3..12 vertices in any relative placement, including deep overlap, containment, identical shapes, parallel edges and near-touching ones",
     "Tests use a dozen axis-aligned pairs; iterative simplex refinement fails on configurations that depend on the exact relative placement.",
     [MATH + "Gjk.hpp", MATH + "Gjk.inl.hpp"],
     [("simplex iteration", MATH + "Gjk.inl.hpp")])

prop("M09", "Separation and penetration vectors are the minimal translations",
     "For two disjoint convex shapes the reported separation is the shortest vector between them, and for two overlapping convex shapes the reported penetration is a shortest translation that pulls them apart, up to rounding and for either argument order. Moving one shape by the reported vector leaves the shapes just touching; the query always ends.",
     ["inputs"], "all pairs of convex polygons with 3..12 vertices in any relative placement and any initial search direction, including containment and parallel edges",
     "Tests check vectors for about ten hand-placed pairs.",
     [MATH + "Gjk.hpp", MATH + "Gjk.inl.hpp"],
     [("separation and penetration refinement", MATH + "Gjk.inl.hpp")])

prop("T01", "The spatial index behaves as a set of boxed elements",
     "After any history of insertions, removals, updates, extractions, moves and clears, the spatial index holds exactly the elements inserted and not removed, each once: iteration and size agree, values stay at stable locations, and its bounds enclose every element. Every region or point query, and every overlap query against given elements, visits exactly the elements whose current box touches the query, each once, even when the callback only inspects the elements.",
     ["histories", "inputs"], "all operation histories and box layouts (random, clustered, nested, touching, degenerate, sorted, identical, huge coordinates)",
     "Tests run a few short scripts; rebalancing, removal of near-root nodes and single-element trees only misbehave after particular histories.",
     [PHY + "RTree.hpp", PHY + "RTree.inl.hpp", PHY + "BoundingBox.hpp"],
     [("insertion, extraction and rebalancing", PHY + "RTree.inl.hpp"), ("queries and iteration", PHY + "RTree.hpp")])

prop("T02", "Refreshing the spatial index reports every overlapping pair once",
     "Refreshing all boxes of the spatial index reports every unordered pair of distinct elements whose new boxes touch exactly once, and no other pair. Afterwards the index holds the same elements with their new boxes and answers queries accordingly, however often refreshes are interleaved with insertions and removals.",
     ["histories", "inputs"], "all sets of 0..200 elements, all box movements, any number of refreshes interleaved with other operations",
     "Tests refresh small fixed layouts; pairs are lost or duplicated only for particular tree shapes.",
     [PHY + "RTree.hpp", PHY + "RTree.inl.hpp"],
     [("bulk rebuild with simultaneous collision reporting", PHY + "RTree.hpp")])

prop("A01", "The pooling allocator hands out valid, disjoint, reusable memory",
     "Blocks handed out by the pooling allocator are aligned for their type, large enough, never overlap another live block and keep their content until released, through any history of allocations, releases, rebinds and copies of the allocator. Memory stays valid while any copy of the allocator lives, released single objects are reused instead of growing forever, containers keep their elements when their allocator is replaced, and owning pointers destroy their object exactly once.",
     ["histories"], "all interleavings of allocate/release/rebind/copy for object sizes and counts, containers using the allocator and owning pointers of derived types",
     "The tests use the allocator only incidentally; overlap or premature release shows as silent corruption.",
     ["include/Simu/utility/Memory.hpp"],
     [("block pool and free list", "include/Simu/utility/Memory.hpp")],
     hook="allocation poisoning under the SIMU_VERIF guard")

prop("B01", "World-space geometry is the rigidly moved local geometry",
     "At every moment between user operations each collider's world vertices are the local polygon moved by its body's current transform, its bounding box is the tight box of those vertices, and the local-to-world and world-to-local transforms are mutually inverse. A newly placed body shows its geometry offset by its position and rotated by its orientation about its centre of mass, and the reported centroid is the world image of the local centre of mass.",
     ["histories", "inputs"], "all bodies with 1..5 colliders, any position and orientation, after any history of steps, collider additions and removals, with and without constraints and contacts",
     "Tests look at one or two bodies right after construction.",
     [PHY + "Body.hpp", SRC + "physics/Body.cpp", PHY + "Collider.hpp", PHY + "Transform.hpp"],
     [("position state and transform", PHY + "Body.hpp"), ("collider update", PHY + "Collider.hpp")])

prop("B02", "Mass, inertia and centre of mass always match the attached colliders",
     "After any history of adding and removing colliders, a body's mass, inertia and centre of mass are those of its current colliders with their densities (parallel-axis theorem), independent of the order of additions and of colliders already removed. Changing colliders does not change the velocity of the body's material points, and constraints and contacts use the body's current mass.",
     ["histories", "inputs"], "all add/remove histories over 1..6 colliders with any shapes and densities, on resting and spinning bodies, with constraints made before or after the change",
     "Tests add one or two colliders and check once.",
     [PHY + "Collider.hpp", PHY + "Body.hpp", SRC + "physics/Body.cpp", PHY + "Bodies.hpp"],
     [("mass combination", PHY + "Collider.hpp"), ("centroid velocity adjustment", SRC + "physics/Body.cpp"), ("inverse masses used by solvers", PHY + "Bodies.inl.hpp")])

prop("B03", "Free bodies follow the documented integration exactly",
     "A body that nothing touches keeps its velocities, and each step of length dt moves its centre of mass by velocity times dt and turns it by angular velocity times dt, regardless of how many other bodies exist or in which order they were created. Impulses and forces change linear velocity by impulse over mass and angular velocity by torque impulse over inertia, and a step of zero or negative length moves nothing.",
     ["histories", "inputs"], "all sets of free bodies, velocities, forces at any point of application, and sequences of step lengths including zero and negative",
     "Tests step one body a few times.",
     [PHY + "Body.hpp", SRC + "physics/World.cpp", PHY + "Island.hpp"],
     [("integration", PHY + "Island.hpp"), ("impulses", PHY + "Body.hpp"), ("step order", SRC + "physics/World.cpp")])

prop("B04", "Force fields act on exactly the bodies they cover",
     "In every step a global field acts once on every collider, and a regional field once on every collider whose bounding box touches the region; structural bodies are never acted upon and dead fields stop acting. Uniform gravity accelerates every free body by the same amount without spinning it, a linear field adds exactly its force once per body that it fully covers, and several fields add up.",
     ["histories", "inputs"], "all mixes of global and regional fields added and killed over time, over single- and multi-collider bodies of any mass, rotated or not",
     "Tests drop one body under one field.",
     [PHY + "ForceField.hpp", SRC + "physics/World.cpp"],
     [("field application", SRC + "physics/World.cpp"), ("predefined fields", PHY + "ForceField.hpp")])

prop("C01", "Constraints and contacts conserve linear and angular momentum",
     "When bodies of ordinary dominance interact only with each other, through any mix of joints and contacts, the total linear momentum and the total angular momentum of the group change in a step only by the external forces, up to rounding (angular momentum also up to the position drift the joints or contacts correct). The centre of mass of the whole group moves as if no internal interaction existed.",
     ["histories", "inputs"], "all groups of free bodies with dominance one linked by hinges, welds, rotation locks, distance limits and contacts, any masses, including colliders added or removed after linking",
     "The suite checks single pairs in symmetric situations; momentum leaks need asymmetric masses, lever arms or a particular constraint order.",
     [PHY + "ConstraintSolver.hpp", PHY + "ConstraintFunction.hpp", PHY + "Constraint.hpp", PHY + "Bodies.inl.hpp"],
     [("impulse application", PHY + "Bodies.inl.hpp"), ("jacobians", PHY + "ConstraintFunction.hpp"), ("contact impulses", PHY + "Constraint.hpp")])

prop("C02", "Structural bodies are immovable and dominance scales response",
     "A body of dominance zero keeps exactly its velocity and follows only that velocity, whatever fields, joints, motors and contacts act around it and however heavy its partners are. Between other bodies, each one's response to a shared joint or contact is proportional to its dominance over its mass, and a dominance given explicitly for a joint replaces the bodies' own (a motor, which names its body alone, acts on it as if it was not structural); a constraint joining only structural bodies is refused and leaves the world usable.",
     ["histories", "inputs"], "all worlds with structural floors, walls and moving platforms at rest or in motion, shared by any number of separate groups, and all per-constraint dominance overrides",
     "Tests use one static floor under one body.",
     [PHY + "Bodies.hpp", PHY + "Bodies.inl.hpp", PHY + "Island.hpp", SRC + "physics/World.cpp", PHY + "ConstraintInterfaces.hpp"],
     [("dominance-scaled inverse masses", PHY + "Bodies.inl.hpp"), ("shared structural bodies across groups", PHY + "Island.hpp")])

prop("C03", "Joints keep the relation they promise",
     "Under ordinary loads a hinge keeps its two anchor points together, a rotation lock keeps the relative angle, a weld keeps both, and a distance constraint keeps the anchor distance equal to its value or inside its limits, at every step and without drifting over time; a disturbed joint returns to its relation. A limit that is not reached does not influence motion, and every documented way of building a joint is usable.",
     ["histories", "inputs"], "all joints over pairs, chains and grids of bodies of mass ratio up to 10, with any anchors, under gravity, pushes and sustained motion for hundreds of steps",
     "Tests run a single pair for a few steps.",
     [PHY + "Constraint.hpp", PHY + "ConstraintFunction.hpp", PHY + "ConstraintSolver.hpp", PHY + "DistanceConstraint.hpp"],
     [("velocity and position solvers", PHY + "ConstraintSolver.hpp"), ("constraint functions", PHY + "ConstraintFunction.hpp"), ("distance limits", PHY + "DistanceConstraint.hpp")])

prop("C04", "Motors never exceed their force and speed limits",
     "In every step a motor changes its body's momentum by at most throttle times its maximum force (or torque) times dt, only along its direction, and never drives an otherwise free body beyond its maximum speed in that direction. Given enough force it reaches the maximum speed; with zero throttle or zero direction it does nothing; throttle stays between zero and one and the direction is unit length.",
     ["histories", "inputs"], "all motor specifications (from force, acceleration, target), throttles, directions and their changes over time, initial velocities and step lengths, with and without warm starting",
     "Tests have no motor coverage beyond construction.",
     [PHY + "Motors.hpp", PHY + "ConstraintSolver.hpp"],
     [("motor functions and specs", PHY + "Motors.hpp"), ("clamped accumulated impulse", PHY + "ConstraintSolver.hpp")])

prop("C05", "Contact information describes a real touching place",
     "Every reported contact has at most two points, a unit normal along which pushing the first body away from the second reduces the overlap, and pairs of points, one on the boundary of each shape, no further from the other shape than the overlap and the tolerated penetration explain. A new contact's normal is the direction of least separation: pushing the first body along it by the depth of the overlap separates the shapes. Shapes overlapping by more than the tolerated penetration always have at least one contact point; shapes further apart than it have none after the next contact update, and a contact does not get points before the overlap reaches it.",
     ["inputs", "histories"], "all pairs of convex colliders in any relative placement, either creation order, and during any motion in a running world",
     "Tests check a few aligned squares.",
     [PHY + "ContactManifold.hpp", PHY + "Constraint.hpp"],
     [("manifold construction", PHY + "ContactManifold.hpp"), ("contact refresh", PHY + "Constraint.hpp")])

prop("C06", "Contacts only push, and friction stays inside the Coulomb cone",
     "The impulse a contact exchanges in a step never pulls the two bodies together, and its tangential part, over any history, does not exceed the combined friction coefficient (up to 0.6) times its normal part beyond the lag of one solver iteration, uses it fully while bodies slide, and never acts to speed up sliding. Without friction the tangential part is zero, so frictionless bodies slide freely, and a body on an incline stays when the slope is below the friction angle and slides when it is above.",
     ["inputs", "histories"], "all contacting pairs of bodies with any friction values and combination modes, velocities, shapes and masses, over many steps with and without warm starting",
     "Tests check two friction scenarios.",
     [PHY + "Constraint.hpp", PHY + "Material.hpp"],
     [("friction clamping and normal solving", PHY + "Constraint.hpp")])

prop("C07", "Bodies do not pass into each other; bounces follow restitution",
     "Bodies that approach at moderate speed stop interpenetrating deeper than the tolerated penetration shortly after contact, a resting body on a floor stays at rest there, and a stack stays stacked. A head-on impact separates the bodies with the combined bounciness times the approach speed (zero for approaches slower than 1), every contact point of an isolated pair leaves each step with at least that share of its approach speed, no contact pushes harder than this takes, and bodies moving apart are not slowed.",
     ["inputs", "histories"], "all single impacts of convex bodies at moderate speed and step length with any bounciness, and resting configurations of 1..5 boxes over hundreds of steps",
     "Tests drop one box; stability depends on shapes, order of creation, mass ratios and solver warm starting.",
     [PHY + "Constraint.hpp", PHY + "ContactManifold.hpp", SRC + "physics/World.cpp", PHY + "Island.hpp"],
     [("contact velocity and position solving", PHY + "Constraint.hpp"), ("contact detection", SRC + "physics/World.cpp")])

prop("C08", "Contacts and joints never create energy",
     "Without fields or motors, contacts without bounciness and joints never make the kinetic energy of an isolated group exceed its initial value, and contacts with bounciness at most one only by the bounded error of simultaneous and rough bounces. Perfectly bouncy frictionless head-on impacts conserve kinetic energy and inelastic ones lose it, and no ordinary world gains speed without bound.",
     ["histories", "inputs"], "all isolated groups of colliding and jointed bodies without fields, over hundreds of steps, any bounciness up to one and any friction",
     "Energy is a whole-history quantity no unit test accumulates.",
     [PHY + "Constraint.hpp", PHY + "ConstraintSolver.hpp", PHY + "Island.hpp"],
     [("solver order and warm starting", PHY + "Island.hpp"), ("restitution", PHY + "Constraint.hpp")])

prop("W01", "A contact exists exactly for the collider pairs whose boxes touch",
     "After every step of positive length, each unordered pair of colliders of different, not both structural bodies whose bounding boxes touch has exactly one contact, made by the current contact factory with those two colliders, unless a constraint present in the world between the two bodies disables contacts; it is live unless it was explicitly killed or a body of it is dead. No other pair has a live contact. A pair that stays in touch keeps the same contact object, and pairs that part lose theirs by the next step.",
     ["histories"], "all histories of body and collider creation and removal, motion, constraint creation and removal with and without contact disabling, and factory replacement",
     "Tests create a couple of overlapping bodies; stale or missing contacts depend on the order of creation, movement and removal.",
     [SRC + "physics/World.cpp", PHY + "World.hpp", PHY + "RTree.hpp"],
     [("contact registration and expiry", SRC + "physics/World.cpp"), ("contact list and factory", PHY + "World.hpp")])

prop("W02", "Dead objects leave at the next step, with their dependants, and no others",
     "An object killed, or whose own death condition holds, is gone from the world after the next step begins, constraints die with any body they join, and nothing that is alive is ever removed. The views over bodies, constraints and fields list exactly the live objects in creation order, each body lists its own live constraints and contacts and none of another's, and clearing a world or destroying it destroys every object exactly once.",
     ["histories"], "all histories of creating, killing (from user code and from inside callbacks), conditional death, clearing and world destruction over bodies, colliders, constraints, contacts and fields",
     "Tests kill one object of each kind; several dying together, or dying inside callbacks, need whole histories.",
     [SRC + "physics/World.cpp", PHY + "World.hpp", PHY + "PhysicsObject.hpp", PHY + "Body.hpp", PHY + "ConstraintInterfaces.hpp"],
     [("cleanup", SRC + "physics/World.cpp"), ("ownership and clear", PHY + "World.hpp")])

prop("W03", "Life-cycle callbacks run exactly once and in the documented order",
     "Every object gets its construction callback once when created, its kill callback at each kill request, its destruction callback exactly once when a step removes it and before any removed object of that step is released, and its destructor once after that. In every step each surviving object gets exactly one start callback after dead objects are removed and one end callback, in the order bodies, constraints, fields, and the solver drives each active constraint in the documented sequence with the configured iteration counts.",
     ["histories"], "all histories of creation, killing, objects that kill or create others from their callbacks, settings changes, and steps including steps of zero length",
     "Tests observe a few callbacks on single objects.",
     [PHY + "PhysicsObject.hpp", SRC + "physics/World.cpp", PHY + "World.hpp", PHY + "Island.hpp", PHY + "ConstraintInterfaces.hpp"],
     [("step phases", SRC + "physics/World.cpp"), ("solver phases", PHY + "Island.hpp")])

prop("W04", "No history of valid calls touches invalid or uninitialised memory",
     "Any history of valid calls on worlds, bodies, colliders, constraints, contacts, fields, factories, settings and queries, including several worlds destroyed in any order, runs without invalid memory access, leak, use of uninitialised values or other undefined behaviour. References a body, contact or query hands out are to live objects for as long as those objects are documented to live.",
     ["histories"], "all call histories over the public physics API, including collider removal, factory replacement, clearing with live contacts, and destruction with live constraints",
     "Tests run without sanitizers and the pooling allocator hides use after release.",
     [PHY + "World.hpp", SRC + "physics/World.cpp", PHY + "Body.hpp", SRC + "physics/Body.cpp", PHY + "RTree.hpp", "include/Simu/utility/Memory.hpp", PHY + "Constraint.hpp"],
     [("ownership and raw references", PHY + "World.hpp"), ("pool memory", "include/Simu/utility/Memory.hpp")],
     hook="allocation poisoning under the SIMU_VERIF guard")

prop("W05", "Spatial queries on a world return exactly the colliders there",
     "A region or point query on a world visits the owning body once for each of its colliders whose current bounding box touches the region or contains the point, and nothing else. This holds right after bodies and colliders are created or removed and after every step.",
     ["histories", "inputs"], "all query boxes and points against all worlds reached by histories of creation, removal, motion and stepping",
     "Tests never query a world after motion or removal.",
     [PHY + "World.hpp", PHY + "RTree.hpp"],
     [("collider index", PHY + "World.hpp"), ("index queries", PHY + "RTree.hpp")])

prop("W06", "Independent groups are solved separately and completely",
     "In every step each active constraint and contact is solved in exactly one group, every non-structural body belongs to exactly one group, and bodies connected through constraints or contacts (but not merely through a resting structural body) are in the same group. The evolution of a group does not depend on other groups present in the world, not even when both touch the same resting structural body.",
     ["histories", "inputs"], "all constraint graphs over bodies and shared structural bodies, any creation order, with inactive constraints, evolving over steps",
     "Tests build four small graphs by hand.",
     [PHY + "Island.hpp", SRC + "physics/World.cpp", PHY + "Body.hpp"],
     [("group construction", PHY + "Island.hpp")])

prop("W07", "The same history gives the same simulation",
     "Two worlds driven through the same history of calls have bit-identical positions, velocities and contact sets after every step, and the simulation never depends on uninitialised memory, leftover content of pooled memory, other worlds, or what a cleared world contained before.",
     ["histories"], "all histories replayed in fresh worlds, in worlds next to unrelated ones, and in worlds that were cleared after other use",
     "Tests never run a scenario twice.",
     [SRC + "physics/World.cpp", PHY + "World.hpp", PHY + "ConstraintSolver.hpp", PHY + "Constraint.hpp", "include/Simu/utility/Memory.hpp"],
     [("solver state initialisation", PHY + "ConstraintSolver.hpp"), ("clear", PHY + "World.hpp")])

prop("W08", "The laws of motion have no preferred place, direction or velocity",
     "Moving, turning or mirroring a whole world, or giving all its bodies a common velocity, moves, turns, mirrors or carries along its evolution by the same amount from one step to the next and over short horizons, up to rounding (steps in which a rounding decides, such as which of two equally deep edges touches, excepted). Swapping the order in which the two bodies of a joint or contact are named gives the same motion.",
     ["inputs", "histories"], "all small worlds of jointed bodies and single impacts, all translations, rotations, mirrorings and common velocities of moderate size",
     "A single scenario cannot reveal an asymmetric formula that is right for the axis-aligned, first-body-left case the tests use.",
     [PHY + "ConstraintFunction.hpp", PHY + "Constraint.hpp", PHY + "ContactManifold.hpp", PHY + "ForceField.hpp", PHY + "DistanceConstraint.hpp"],
     [("constraint functions", PHY + "ConstraintFunction.hpp"), ("contacts", PHY + "Constraint.hpp")])

prop("W09", "Ordinary worlds stay finite and bounded, and refuse what makes no sense",
     "Stepping a world of ordinary convex bodies (sizes 0.4 to 2.5, densities 0.3 to 8, speeds up to 5, steps of 1/120 to 1/30 s), piled, thin, exactly aligned, overlapping at first or tied by satisfiable joints and motors, never throws, never hangs, never gives a non-finite position or velocity nor a contact whose normal is not a unit vector; its energy does not exceed what it had, gained by falling and got from motors by more than a bounded amount, and nothing is pressed out of a closed container. A request that makes no sense (a degenerate shape, a density that is not positive, distance limits that are absent, not positive or crossed, a joint without a movable body) throws simu::Exception and leaves the world exactly as it was, now and in its future motion.",
     ["histories", "inputs"], "all crowded piles, overlapping spawns, thin and regular convex shapes, satisfiable joints and motors, hundreds of steps; all refused construction arguments at any step",
     "Tests simulate a handful of frames; numeric failure appears in rare configurations of a running pile.",
     [SRC + "physics/World.cpp", PHY + "Constraint.hpp", PHY + "ContactManifold.hpp", MATH + "Gjk.inl.hpp", PHY + "Collider.hpp"],
     [("collision vectors", MATH + "Gjk.inl.hpp"), ("contact solving", PHY + "Constraint.hpp"), ("argument checks", PHY + "Collider.hpp")])

prop("W10", "Combined material properties follow the documented priority",
     "Combining a property of two materials uses the combination mode with the higher priority and yields the average, minimum, product or maximum of the two values, whichever material is named first. Contacts use exactly these combined values for bounciness, friction and tolerated penetration.",
     ["inputs"], "all pairs of modes and values, either order, as observed on the property and in the behaviour of contacts",
     "Tests do not compare the behaviour of contacts across mode pairs.",
     [PHY + "CombinableProperty.hpp", PHY + "Material.hpp", PHY + "Constraint.hpp", PHY + "ContactManifold.hpp"],
     [("combination", PHY + "CombinableProperty.hpp"), ("use in contacts", PHY + "Constraint.hpp")])

APP = "include/Simu/app/"
prop("S01", "The camera shows the scene where it says, and the pointer agrees",
     "Zoom, panning, view size and pixel size mean what they say: the camera's transform takes the shown rectangle to the screen and its inverse takes it back. In a running application the view follows the window's size, arrow keys pan at the documented speed whatever the zoom, scrolling up zooms in and down zooms out by a step per notch (and not at all for none), and whatever is seen at a place of the window is what a pointer at that place selects, for every camera and window. Input on the user interface does not reach the scene.",
     ["inputs", "histories"], "all sequences of camera calls, window sizes, keys, scrolls and pointer positions",
     "No test runs the application layer at all; it needs a window.",
     [APP + "Camera.hpp", APP + "Scene.hpp", SRC + "app/Scene.cpp", SRC + "app/Application.cpp"],
     [("camera", APP + "Camera.hpp"), ("input", SRC + "app/Application.cpp")])

prop("S02", "The screen shows exactly what the scene contains",
     "Every polygon, line and point asked for reaches the graphics card exactly once, whole, in its colour, under the camera in force when the batch is flushed, at any size and number (polygons of thousands of corners and more primitives than the buffer holds included), with the chosen width, radius and roundness; flushing twice shows nothing twice; all graphics resources are released and shader failures are reported. In a scene each frame shows exactly its bodies' colliders and their boxes, the touching points of its contacts, its distance joints and the pull of the mouse, where they are, and nothing of what was removed.",
     ["inputs", "histories"], "all sets of primitives and pen settings; all small scenes over frames with removals and pulls",
     "No test draws anything.",
     [APP + "Renderer.hpp", SRC + "app/Renderer.cpp", APP + "VisiblePhysics.hpp"],
     [("triangulation and buffers", SRC + "app/Renderer.cpp"), ("what is drawn", APP + "VisiblePhysics.hpp")])

prop("S03", "Dragging holds one body by the grabbed point until it is let go",
     "With the grabber, pressing the left button on a movable body grabs one body under the pointer at that point; at any time at most one body is pulled, towards the current pointer; other buttons and pressing on nothing change nothing. Letting go, removing the body or restarting the scene ends the pull, in any order and between any frames, without touching a removed object. A held body comes to a resting pointer without being flung beyond, other bodies are not disturbed, and a body that was let go moves on freely.",
     ["histories"], "all histories of presses, moves, releases, removals, restarts and pauses over frames",
     "No test uses a tool; the danger is the order in which the world and the user end a pull.",
     [SRC + "app/Tool.cpp", APP + "Tool.hpp", APP + "MouseConstraint.hpp"],
     [("grabber", SRC + "app/Tool.cpp"), ("mouse constraint", APP + "MouseConstraint.hpp")])

prop("S04", "Keys and controls do what they say, for the scene that is shown",
     "Each frame advances the shown scene, and only it, by the elapsed time, at most a sixtieth of a second, times its play speed, and not at all when paused; S advances one sixtieth at the play speed also when paused. P and the button named after what it will do toggle the pause of the shown scene, minus and equal halve and double its speed, R restores exactly the initial scene, Escape closes; keys typed into the user interface do nothing. Selecting a scene or a tool switches to it, a scene returned to restarts, the settings chosen reach the world, the options chosen for the box spawner stay as chosen while their window is open, and a click makes exactly one such box at the pointer.",
     ["histories"], "all histories of keys, clicks, slider moves, scene and tool changes over frames of any duration",
     "No test runs a scene; state is shared between the keyboard, the windows and several scenes.",
     [APP + "Scene.hpp", SRC + "app/Scene.cpp", SRC + "app/Application.cpp", SRC + "app/Tool.cpp"],
     [("controls", SRC + "app/Application.cpp"), ("keys", SRC + "app/Scene.cpp"), ("spawner", SRC + "app/Tool.cpp")])

prop("S05", "The demos run, and behave as the machines they show",
     "Every demo starts, restarts and runs for any choice of its options and under any user input without an error or a non-finite position. Left alone, stacks and towers of moderate height stay as built, a pyramid settles without collapsing, the pendulum's strings keep their length and it gains no energy, and the tumbler turns at its speed, receives one box per frame up to its limit and lets none out.",
     ["inputs", "histories"], "all option values of moderate size, hundreds of frames, random users dragging, spawning, restarting and switching demos",
     "The demos are not tested; they are the system's whole purpose run end to end.",
     ["demos/BoxStacks.cpp", "demos/NewtonPendulum.cpp", "demos/Pyramid.cpp", "demos/Tower.cpp", "demos/Tumbler.cpp", SRC + "physics/World.cpp"],
     [("demos", "demos/Demos.hpp"), ("world", SRC + "physics/World.cpp")])

prop("S06", "The profiler's figures are those of the steps made",
     "After every step each figure of the profiler was measured once if that part ran; its last time is not negative, the parts together do not exceed the step, the time really spent in finding contacts, refreshing contacts, solving velocities and solving positions is reported under its own name, and average and maximum are those of the measurements since the last reset. The tree height fits the number of colliders. The profiler window shows these figures and the frame rate.",
     ["histories"], "all histories of steps, pauses, restarts and profiler resets, with delays injected into each part of a step",
     "No test reads the profiler.",
     [PHY + "Profiler.hpp", PHY + "Island.hpp", SRC + "physics/World.cpp", SRC + "app/Application.cpp"],
     [("timers", PHY + "Profiler.hpp"), ("window", SRC + "app/Application.cpp")])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
