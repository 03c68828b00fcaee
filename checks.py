"""Registry of the checks: which harness, how many cases, what must have been observed."""
PROPS = {}


def P(id, **kw):
    PROPS[id] = kw


P("M01", src="h_matrix.cpp", runs=[{"variant": "asan0", "quick": 1200, "thorough": 60000}],
  min={"shapes": 20000, "products": 10000, "vectors": 10000},
  rule="a matrix shape with a distinct random content (shape, entry style and every entry hashed)",
  technique="online reference-model monitor (double-precision index arithmetic) under ASan+UBSan",
  note="sampled entries over the listed shapes; reference is plain loops in double, exact for integers",
  assumptions=["finite entries of magnitude 1e-6..1e6", "shapes up to 6x6"])
P("M02", src="h_matrix.cpp", runs=[{"variant": "asan0", "quick": 12000, "thorough": 600000}],
  min={"systems": 20000, "reported_invalid": 1},
  rule="a solved system with distinct size, sparsity style, condition number and solution",
  technique="online residual/inverse certificate against a pivoted double solver under ASan+UBSan",
  note="sampled systems with condition number up to 1e4 (float); worse ones are only checked for being reported or finite",
  assumptions=["entries of moderate magnitude (1e-3..1e4)"])
P("M03", src="h_matrix.cpp", runs=[{"variant": "asan0", "quick": 6000, "thorough": 300000}],
  min={"lcp_redundant": 40000, "lcp_none_active": 500, "lcp_first_active": 500, "lcp_second_active": 500, "lcp_both_active": 500, "bounded_systems": 5000},
  rule="a 2x2 complementarity problem with distinct matrix, right-hand side and active set",
  technique="online complementarity certificate checker under ASan+UBSan, CPU-time hang detector",
  note="the certificate decides each instance without a reference solver; instances are sampled from the matrices constraints produce",
  assumptions=["symmetric positive definite matrices of condition number below about 1e3"])
G = dict(src="h_geom.cpp")
P("M04", **G, runs=[{"variant": "asan", "quick": 20000, "thorough": 1000000}],
  min={"chains": 10000},
  rule="a distinct chain of translations, rotations and transforms",
  technique="online reference-model monitor (rigid motions in double) under ASan+UBSan",
  note="sampled chains of up to 24 compositions; tolerance proportional to chain length, magnitude and angle",
  assumptions=["angles up to a few tens of turns in total, offsets up to 50 per operation"])
P("M05", **G, runs=[{"variant": "asan", "quick": 20000, "thorough": 1000000}],
  min={"boxes_overlapping": 10000, "boxes_apart": 10000, "boxes_nested": 10000, "boxes_invalid": 1000, "boxes_of_nothing": 100, "intervals_touching": 1000},
  rule="a set of ten boxes with distinct coordinates, compared all against all",
  technique="online exact predicate monitor (comparisons in double) under ASan+UBSan",
  note="exact oracle, no tolerance; sampled coordinates including neighbouring floats, huge and denormal ones",
  assumptions=["finite coordinates"])
P("M06", **G, runs=[{"variant": "asan", "quick": 8000, "thorough": 400000}],
  min={"polygons": 10000, "clockwise_inputs": 1000, "degenerate": 1000},
  rule="a polygon with distinct vertices (four orders of each are judged)",
  technique="online reference-model monitor (moments in double, edge walk model) under ASan+UBSan",
  note="sampled simple polygons; tolerance grows with the fourth power of the distance to the origin",
  assumptions=["polygons of size 0.1..20 within 8 sizes of the origin"])
P("M07", **G, runs=[{"variant": "asan", "quick": 10000, "thorough": 500000}],
  min={"segments": 10000, "triangle_inside": 1000, "triangle_outside": 1000, "triangle_clockwise": 1000, "clip_crossing": 1000, "clip_clamped": 1000},
  rule="a set of distinct triangles and query points",
  technique="online nearest-point certificate in double under ASan+UBSan",
  note="sampled triangles in all regions, borders and both windings; slivers thinner than 0.1 only on the lattice",
  assumptions=["coordinates up to about 15"])
P("M08", **G, runs=[{"variant": "asan", "quick": 60000, "thorough": 3000000}],
  min={"touching": 500, "overlapping": 5000, "apart": 5000, "deep": 1000},
  rule="a pair of convex polygons with distinct vertices (8 orders/directions of each are judged)",
  technique="online Minkowski-difference oracle (exact on lattice pairs) under ASan+UBSan, CPU-time hang detector",
  note="exact on integer coordinates, otherwise outside a band of 2e-5 of the coordinates' size around touching",
  assumptions=["3..12 vertices, sizes 0.1..12, coordinates up to about 30"])
P("M09", **G, runs=[{"variant": "asan", "quick": 40000, "thorough": 2000000}],
  min={"separations": 20000, "penetrations": 20000},
  rule="a pair of convex polygons with distinct vertices (8 orders/directions of each are judged)",
  technique="online Minkowski-difference distance oracle in double under ASan+UBSan, CPU-time hang detector",
  note="length and effect of the vector compared to the exact distance within 1e-4 of the coordinates' size",
  assumptions=["3..12 vertices, sizes 0.1..12, coordinates up to about 30"])
T = dict(src="h_rtree.cpp", technique="online model-based monitor (multiset of boxed elements) under ASan+UBSan",
         assumptions=["finite boxes; callbacks do not modify the tree"])
P("T01", **T, runs=[{"variant": "asan", "quick": 1500, "thorough": 100000}, {"variant": "asanmalloc", "quick": 500, "thorough": 20000}],
  min={"operations": 50000, "queries": 20000, "hits": 20000, "erased": 5000, "moved": 200, "cleared": 100},
  rule="a history of operations with distinct inserted boxes and refresh results",
  note="every query and the whole content compared after each operation; sampled histories with up to 200 elements in 11 layouts")
P("T02", **T, runs=[{"variant": "asan", "quick": 1500, "thorough": 100000}, {"variant": "asanmalloc", "quick": 500, "thorough": 20000}],
  min={"refreshes": 5000, "pairs": 50000, "operations": 30000},
  rule="a history of operations with distinct inserted boxes and refresh results",
  note="the complete set of reported pairs compared after each refresh; sampled histories with up to 200 elements in 11 layouts")
P("A01", src="h_mem.cpp",
  runs=[{"variant": "asanleak", "quick": 6000, "thorough": 300000}, {"variant": "asanmalloc", "quick": 2000, "thorough": 50000}],
  min={"allocated": 50000, "released": 20000, "reuse_rounds": 100000, "replaced": 1000, "pointers_released": 500, "throwing_constructors": 500},
  rule="a history of sizes and counts requested from a family of related allocators",
  technique="online shadow-map monitor (ranges, patterns, reuse, destruction counts) under ASan+UBSan+LSan",
  note="every live byte patterned and rechecked; sampled histories over ten sizes/alignments and several independent pools",
  assumptions=["alignments up to 64, blocks up to 200 kB"])
B = dict(src="h_body.cpp")
P("B01", **B, runs=[{"variant": "asan", "quick": 4000, "thorough": 120000}],
  min={"judged": 50000, "steps": 10000, "colliders_added": 2000, "colliders_removed": 1000, "contacts": 1000, "joints": 1000},
  rule="a history of operations on a world with distinct final placement",
  technique="online reference-model monitor (rigid placement in double) after every operation under ASan+UBSan",
  note="every collider of every body compared after each operation; sampled histories",
  assumptions=["positions within 500 of the origin", "coordinates of colliders up to about 5"])
P("B02", **B, runs=[{"variant": "asan", "quick": 16000, "thorough": 500000}],
  min={"added": 20000, "removed": 5000, "spinning_changes": 5000, "joints_before_change": 2000, "contacts_after_change": 200, "reordered": 2000},
  rule="an add/remove history with distinct collider masses, or a jointed pair whose mass changed",
  technique="online reference-model monitor (parallel-axis theorem in double), differential monitor for joints under ASan+UBSan",
  note="sampled histories of up to 6 colliders; inertia compared relative to the inertia about the local origin",
  assumptions=["collider coordinates up to about 6, densities 0.1..20"])
P("B03", **B, runs=[{"variant": "asan", "quick": 6000, "thorough": 200000}],
  min={"advances": 100000, "impulses": 10000, "empty_steps": 10000},
  rule="a history of steps and impulses with distinct motion",
  technique="online reference-model monitor (closed-form motion) and differential monitor (alone / in company) under ASan+UBSan",
  note="velocities compared bit for bit, positions to one rounding; sampled histories",
  assumptions=["positions up to about 1e4, velocities up to 30"])
P("B04", **B, runs=[{"variant": "asan", "quick": 8000, "thorough": 250000}],
  min={"steps": 20000, "gravity": 10000, "linear_covered": 5000, "partly_covered": 2000, "killed_fields": 1000, "structural_left_alone": 2000},
  rule="a history of fields and bodies with distinct velocities",
  technique="online monitor: call counting field plus closed-form impulse model in double under ASan+UBSan",
  note="the exact set of visited colliders and the resulting velocities are compared every step; sampled worlds",
  assumptions=["forces and accelerations up to 10 per component"])
P("W05", **B, runs=[{"variant": "asan", "quick": 6000, "thorough": 200000}],
  min={"hit_queries": 20000, "empty_queries": 20000, "colliders_added": 2000, "colliders_removed": 2000, "bodies_removed": 2000, "steps": 20000},
  rule="a history of creations, removals and steps with distinct operations",
  technique="online model-based monitor (brute force over current boxes) under ASan+UBSan",
  note="four queries judged after every operation; sampled histories of up to 14 bodies",
  assumptions=["finite coordinates"])

J = dict(src="h_joint.cpp")
P("C01", **J, runs=[{"variant": "asan", "quick": 4000, "thorough": 150000}],
  min={"steps": 50000, "interacting_steps": 20000, "corrected_steps": 5000, "contact_steps": 5000, "mass_changes": 1000, "angular_judged": 30000},
  rule="a history of a group with distinct exchanged momenta",
  technique="online conservation monitor (double-precision ledger over the real bodies, before and after every step) under ASan+UBSan",
  note="linear and angular momentum, centre of mass and first moment of corrections judged every step; sampled groups of 2..6 bodies",
  assumptions=["positions up to 200 and speeds up to 200", "angular momentum judged up to gap times exchanged impulse, when anchors are within 0.02"])

P("C02", **J, runs=[{"variant": "asan", "quick": 4000, "thorough": 40000}],
  min={"resting_judged": 10000, "moving_judged": 5000, "refused": 500, "contacts": 5000, "contact_responses": 300, "joint_responses": 2000, "structural_by_override": 500, "bare_anchors": 100},
  rule="a world of structural and driven bodies, or a pair sharing a joint or contact, with distinct motion",
  technique="online monitor (bit equality for structural bodies, dominance-weighted momentum ledger for pairs) under ASan+UBSan",
  note="every structural body judged at every step; sampled worlds of up to 8 bodies",
  assumptions=["motors name their body with the explicit dominance of singleBody and are not attached to structural bodies"])
P("C03", **J, runs=[{"variant": "asan", "quick": 3000, "thorough": 60000}],
  min={"held": 100000, "slack_steps": 2000, "rates": 10000, "limit_stopped": 400, "limit_let_go": 60, "disturbances": 100, "hung": 500, "way_points": 20, "way_distance": 20, "way_equal_limits": 20, "way_default": 20, "way_min": 20, "way_max": 20, "way_both": 20, "way_hinge": 20, "way_weld": 20, "way_rotation": 20},
  rule="a jointed group with distinct worst deviation",
  technique="online joint-error monitor over the real anchors at every step, differential monitor for slack limits, under ASan+UBSan",
  note="deviation bounds calibrated on the corrected solver; sampled groups of 2..10 bodies over 200..600 steps",
  assumptions=["mass ratio up to 10 per area, speeds up to 1, 60 steps per second, default iteration counts"])
P("C04", **J, runs=[{"variant": "asan", "quick": 10000, "thorough": 300000}],
  min={"steps": 100000, "force_limited": 20000, "speed_limited": 10000, "torque_limited": 20000, "spin_limited": 4000, "motor_idle": 20000},
  rule="a history of motor settings with distinct velocities",
  technique="online monitor: closed-form motor model in double compared after every step under ASan+UBSan",
  note="velocity and spin compared every step with every way of specifying a motor; sampled histories",
  assumptions=["at least one velocity iteration", "an otherwise free body"])

L = dict(src="h_life.cpp")
P("W01", **L, runs=[{"variant": "asan", "quick": 12000, "thorough": 300000}],
  min={"clears": 1000, "colliders_added": 100000, "colliders_removed": 20000, "constraints_made": 20000, "contacts_expired": 60000, "contacts_kept": 600000, "contacts_made": 100000, "contacts_new": 100000, "doomed": 10000, "factories": 5000, "fields_made": 8000, "kills": 40000, "pairs_disabled": 10000, "pairs_judged": 800000, "refused_constraints": 800, "scripted_changes": 4000, "steps": 100000},
  rule="a step whose set of touching pairs is distinct",
  technique="online reference-model monitor (brute force over all collider boxes, contact identity tracked across steps) under ASan+UBSan",
  note="every pair of colliders judged after every step, with scripted kills from callbacks; sampled histories",
  assumptions=["colliders and constraints are not created by end-of-step callbacks"])
P("W02", **L, runs=[{"variant": "asan", "quick": 10000, "thorough": 200000}],
  min={"all_kinds_at_once": 2000, "body_lists": 2000000, "clears": 900, "colliders_added": 100000, "colliders_removed": 10000, "colliders_removed_in_step": 500, "constraints_made": 10000, "contacts_made": 100000, "died": 90000, "doomed": 7000, "factories": 3000, "fields_made": 7000, "kills": 20000, "left_at_end": 70000, "refused_constraints": 600, "scripted_changes": 5000, "several_bodies_at_once": 2000, "steps": 90000}, rule="a step with a distinct set of dead objects",
  technique="online model-based monitor (existence model fed by instrumented objects) under ASan+UBSan",
  note="all views compared after every call and every step; sampled histories with scripted callbacks",
  assumptions=["constraints are not attached to bodies that are being removed"])
P("W03", **L, runs=[{"variant": "asan", "quick": 12000, "thorough": 300000}],
  min={"applies": 500000, "clears": 1000, "colliders_added": 100000, "colliders_removed": 10000, "colliders_removed_in_step": 600, "constraints_made": 20000, "contacts_made": 100000, "deaths_judged": 100000, "doomed": 9000, "driven": 90000, "empty_steps": 10000, "factories": 3000, "fields_made": 8000, "idle": 40000, "joint_deaths": 20000, "kills": 30000, "refused_constraints": 800, "scripted_changes": 7000, "sharing_pairs": 20000, "steps": 100000, "survivors_judged": 1000000}, rule="a step with a distinct sequence of callbacks",
  technique="runtime verification of the event trace of every step against an automaton, under ASan+UBSan",
  note="all callbacks of instrumented bodies, constraints, contacts and fields recorded and judged for every step; sampled histories with scripted callbacks",
  assumptions=["settings do not change during a step"])
P("W04", **L, runs=[{"variant": "asanmalloc", "quick": 8000, "thorough": 200000}, {"variant": "asan", "quick": 4000, "thorough": 100000}, {"variant": "memcheck", "quick": 64, "thorough": 1200}],
  min={"bodies_read": 1000000, "clears": 1000, "colliders_added": 100000, "colliders_removed": 20000, "colliders_removed_in_step": 900, "constraints_made": 30000, "contacts_made": 200000, "contacts_read": 1000000, "doomed": 10000, "factories": 5000, "fields_made": 10000, "kills": 50000, "queries": 30000, "refused_constraints": 1000, "scripted_changes": 10000, "steps": 100000, "worlds_destroyed": 7000}, rule="a step with a distinct sequence of callbacks",
  technique="sanitizers: ASan+UBSan+LeakSanitizer with the pool allocator replaced by malloc, ASan with poisoned pools, valgrind memcheck for uninitialised values",
  note="histories of every public call on 1..3 worlds, everything handed out is read after each step; sampled",
  assumptions=["the pool is bypassed in one variant so that stale pointers fault"])
W = dict(src="h_law.cpp")
P("W06", **W, runs=[{"variant": "asan", "quick": 24000, "thorough": 600000}],
  min={"advanced": 150000, "bit_identical": 300000, "compared_in_contact": 35000, "groups": 45000, "groups_of_several": 25000, "inactive": 100000, "resting_structural_links": 20000, "touching_pairs": 15000},
  rule="a step with a distinct partition into groups, or a crowd of groups with distinct motion",
  technique="online trace monitor (solver calls against a union-find model) and differential monitor (group alone / among others) under ASan+UBSan",
  note="every constraint and body judged every step; sampled graphs of up to 12 bodies; groups compared bit for bit when only joints act",
  assumptions=["groups that share a floor are compared for 12 steps after touching it"])
P("W07", **W, runs=[{"variant": "plain", "quick": 8000, "thorough": 200000}, {"variant": "asan", "quick": 2000, "thorough": 50000}, {"variant": "memcheck", "quick": 48, "thorough": 600}],
  min={"cleared": 6000, "contact_steps_compared": 70000, "histories_of_joints": 2000, "histories_with_contacts": 1000, "steps_compared": 300000}, rule="a history with a distinct final state (each is played four times)",
  technique="differential monitor (bit comparison of replays in fresh, crowded, cleared and re-used memory) under ASan+UBSan, valgrind memcheck for uninitialised values",
  note="positions, velocities and contacts compared bit for bit after every step of four replays; sampled histories",
  assumptions=["one process, one binary"])
P("W08", **W, runs=[{"variant": "asan", "quick": 12000, "thorough": 400000}],
  min={"carried along": 700, "mirrored": 700, "moved": 800, "turned": 800, "with a bit of everything": 800, "with names swapped": 700, "with_contact": 800, "without_contact": 3000}, rule="a world and a motion of it with a distinct worst deviation",
  technique="metamorphic monitor (two worlds stepped side by side, compared through the motion after every step) under ASan+UBSan",
  note="velocities synchronised after each comparison so that roundings do not grow; up to 40 steps; worlds in which a rounding decides are left out and counted",
  assumptions=["up to 5 bodies, coordinates within 40", "steps in which a rounding switches a limit or selects other contact points are not judged"])
K = dict(src="h_contact.cpp")
P("C05", **K, runs=[{"variant": "asan", "quick": 50000, "thorough": 1500000}],
  min={"apart": 100000, "contact_steps": 300000, "kept_contacts": 200000, "new_contacts": 20000, "one_point": 100000, "overlapping": 200000, "steps": 500000, "two_points": 60000},
  rule="a pair of shapes with a distinct sequence of distances and contact points",
  technique="online geometric monitor (Minkowski-difference oracle in double over every refreshed contact) under ASan+UBSan",
  note="every contact judged at every update, new and kept ones; sampled pairs from 3 tolerances apart to 0.2 deep, over up to 60 steps",
  assumptions=["shapes of size 0.6..2.5", "one tolerated penetration for both shapes, 0.001..0.05"])
P("C06", **K, runs=[{"variant": "asan", "quick": 50000, "thorough": 1500000}],
  min={"contact_steps": 150000, "frictionless": 30000, "incline_slides": 1200, "incline_stays": 1200, "slides": 20000, "sticks": 15000},
  rule="a pair with distinct exchanged impulses, or a box on an incline with distinct motion",
  technique="online impulse monitor (what one contact exchanged in each step, from the velocities of both bodies) under ASan+UBSan",
  note="pull and frictionless judged every step; the Coulomb cone over each history, because the bound lags by one iteration; inclines against the closed form",
  assumptions=["one contact between two bodies", "cone judged for coefficients below 0.6"])
P("C07", **K, runs=[{"variant": "asan", "quick": 50000, "thorough": 1000000}],
  min={"bounces": 8000, "contact_steps": 120000, "dropped": 150, "head_on": 2000, "head_on_slow": 800, "let_go": 50000, "pushed": 60000, "resting": 150, "stacked": 150},
  rule="a pair with distinct exchanged impulses, an impact with a distinct outcome, or a settled scene with distinct places",
  technique="online complementarity monitor (velocity of every contact point before and after every step), closed-form impacts, and settling scenes, under ASan+UBSan",
  note="every step of isolated contacts judged to single precision; resting boxes, stacks of up to 5 and dropped shapes judged by bounds",
  assumptions=["one contact between two bodies, except in stacks", "approach speeds up to 8"])
P("C08", **K, runs=[{"variant": "asan", "quick": 50000, "thorough": 1000000}],
  min={"contact_steps": 150000, "elastic": 900, "inelastic": 60000, "jointed_groups": 2000, "loose_groups": 300, "mixed_groups": 300, "rough": 40000, "smooth": 30000},
  rule="a pair or a group with a distinct evolution of its energy",
  technique="online energy monitor over the real bodies after every step, under ASan+UBSan",
  note="every step of isolated contacts and of groups of up to 6 bodies over 300 steps; structural bodies at rest",
  assumptions=["groups with contacts have no bounciness", "jointed groups with loops or masses of ratio over two and a half are given 40 (loops: 150) velocity iterations", "rough bouncy contacts judged up to 0.1 + 4 times friction times bounciness of their energy"])
P("W09", src="h_wild.cpp", runs=[{"variant": "asan", "quick": 6000, "thorough": 120000}],
  min={"contacts": 1500000, "containers_judged": 600, "refused": 6000, "refusing_worlds": 600, "steps": 150000, "worlds_exact": 300, "worlds_machines": 300, "worlds_overlapping": 300, "worlds_pile": 300, "worlds_thin": 300},
  rule="a world with a distinct final state",
  technique="online invariant monitor (finiteness, bounded energy and depth, refused construction) under ASan+UBSan with a CPU-time hang detector",
  note="crowded, overlapping, exactly aligned, thin and jointed worlds for up to hundreds of steps; sampled",
  assumptions=["sizes 0.4..2.5, densities 0.3..8, speeds up to 5, steps of 1/120..1/30 s"])
P("W10", **K, runs=[{"variant": "asan", "quick": 60000, "thorough": 2000000}],
  min={"bounced": 7000, "deeper": 4000, "mode_average": 4000, "mode_maximum": 20000, "mode_minimum": 10000, "mode_multiply": 15000, "rubbed": 7000, "shallower": 3000},
  rule="a pair of materials with distinct combined values",
  technique="online reference-model monitor (documented table) on the property and on the response of real contacts, under ASan+UBSan",
  note="all mode pairs and both orders; bounce ratio, friction ratio and contact threshold of a box on a structural one measured in one step",
  assumptions=["bounciness and friction in 0..1", "tolerated penetrations 0.002..0.05 (0.05..0.3 when multiplied)"])
A = dict(src="h_app.cpp")
P("S01", **A, runs=[{"variant": "asan", "quick": 12000, "thorough": 400000}],
  min={"captured": 4000, "mapped": 100000, "panned": 4000, "pointed": 20000, "scrolled": 4000}, rule="hash of the final camera, or of the pointer positions of the session",
  technique="online reference-model monitor (camera model in doubles; what the stand-in display received against what the pointer selects) on random camera and window histories, under ASan+UBSan",
  note="half the cases drive Camera alone, half a whole Application over stand-ins for GLFW, OpenGL and Dear ImGui",
  assumptions=["zoom 0.01..100, windows of 30..3000 pixels", "window and framebuffer of the same size", "the stand-ins follow the documented interface of GLFW, OpenGL 3.3 and Dear ImGui"])
P("S02", **A, runs=[{"variant": "asan", "quick": 4000, "thorough": 100000}],
  min={"colliders_drawn": 30000, "contacts_drawn": 2000, "contours": 2000, "dead_contacts": 100, "draw_calls": 2000, "flushed_early": 200, "frames": 4000, "huge_polygons": 500, "inked_pixels": 200000, "near_contacts_drawn": 1000, "pixels": 300000, "primitives": 30000, "pulls_drawn": 1000, "ropes_drawn": 5000, "slack_at_a_point": 100}, rule="hash of what was drawn",
  technique="display monitor: sampled pixels of the triangles the stand-in graphics card received against the layers the scene should show, under ASan+UBSan",
  note="pixels are sampled inside of what was asked for, inside of what was received, and anywhere; those within rounding of an edge are skipped",
  assumptions=["the width of a contour at corners is not judged", "convex polygons around the given centre", "the stand-ins follow the documented interface of OpenGL 3.3"])
P("S03", **A, runs=[{"variant": "asan", "quick": 12000, "thorough": 400000}],
  min={"brought": 1000, "grabbed": 10000, "grabbed_of_many": 1000, "held": 50000, "held_body_killed": 1000, "pressed_again": 5000, "pressed_again_on_nothing": 5000, "pressed_on_nothing": 20000, "released": 5000, "restarted_while_holding": 1000}, rule="hash of who was held and where the pointer was in each frame",
  technique="online reference-model monitor of the pull (at most one, on what was pressed, to the pointer) over random user histories, with removals and restarts as injected faults, under ASan+UBSan",
  note="a second kind of case holds one free body at a resting pointer for four seconds",
  assumptions=["bodies are grabbed by the box of a collider, as the world's point query is", "changing the tool or the scene while holding is exercised in S05 but its meaning is not judged", "bring: masses up to 42, no gravity"])
P("S04", **A, runs=[{"variant": "asan", "quick": 20000, "thorough": 600000}],
  min={"clicks": 20000, "closed": 10000, "keys": 100000, "options_moved": 5000, "pause_offered": 40000, "play_offered": 20000, "resized": 10000, "restarts": 10000, "scenes_changed": 7000, "settings": 90000, "single_steps": 30000, "single_steps_paused": 20000, "spawned": 8000, "steps": 100000}, rule="hash of the simulated time and the scene shown over the session",
  technique="online reference-model monitor: a model of clock, keys, windows and scenes against every step, label, setting and spawned box, under ASan+UBSan",
  note="1..3 scenes; a free body's flight is the independent witness of the time that was simulated",
  assumptions=["the settings window is shared between scenes: its values go to the scene it is open for", "angles of boxes are compared to 1 degree, modulo half a turn", "the stand-ins follow the documented interface of GLFW and Dear ImGui"])
P("S05", **A, runs=[{"variant": "asan", "quick": 400, "thorough": 12000}],
  min={"boxes_tumbled": 2000, "frames": 5000, "pendulums_watched": 10, "presses": 800, "pyramids_watched": 10, "scene_changes": 100, "stacks_watched": 10, "towers_watched": 10, "tumblers_watched": 20}, rule="hash of demo and options, or of the session",
  technique="end-to-end monitor: invariants of each demo (rest, string length, energy, enclosure, rate) over undisturbed runs, finiteness and sanitizers over random users",
  note="options up to 8 boxes high, 8 pendulums, 250 tumbled boxes in 300 frames; the default sizes (1830 boxes) are started and stepped",
  assumptions=["bounds: stacks shift below 0.2 and sink below 0.05 per box, towers 0.05 per floor, strings 10 % + 0.2, pendulum gain 10 % of one push", "tall stacks and large pyramids lean beyond the solver's eight iterations and are not judged"])
P("S06", **A, runs=[{"variant": "asan", "quick": 6000, "thorough": 200000}],
  min={"measured": 50000, "profiler_resets": 1000, "shown": 200000, "slow_contacts": 2000, "slow_positions": 2000, "slow_tree": 900, "slow_velocities": 2000}, rule="hash of the frame times",
  technique="online monitor: bookkeeping of every measurement against the profiler's figures and the window's texts, delays injected into each part of a step, under ASan+UBSan",
  note="delays of 10..200 us in contacts, contact search, velocities, positions and outside of all parts",
  assumptions=["steady clock"])
