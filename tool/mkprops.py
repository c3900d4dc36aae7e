#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Vector, rotation, transform and matrix operations obey their algebra",
  "Applying a rigid transform and then its inverse returns the original point; a product of two transforms (or the product with an inverse) acts like applying them one after the other, and rotations keep lengths and dot products. "
  "A matrix solve or inverse satisfies its defining equation whenever the matrix is invertible (and gives zero when it is singular), and vector operations (dot, cross, length, distance, normalise, abs, min, max, clamp, component access) have their textbook meaning. "
  "The next-power-of-two helper returns the smallest power of two strictly above its argument.",
  ["inputs"], "every finite vector, angle, transform and matrix", "The existing tests check one matrix-free sweep case; no test evaluates a matrix solve, an inverse transform or a clamp, and no finite set of examples covers all real inputs.",
  ["src/b2_math.rs", "src/private/common/b2_math.rs"],
  [("vector / matrix / transform functions", "src/b2_math.rs"), ("3x3 solves and inverses", "src/private/common/b2_math.rs")],
  ["return values of the public math functions"])
p("P02", "A sweep interpolates motion exactly and advancing keeps the trajectory",
  "The transform of a swept body at fraction 0 and 1 is its start and end pose, and in between the centre of mass moves on the straight line and the angle linearly. "
  "Advancing the start of the sweep to a fraction keeps the end pose and every later pose of the same motion; normalising the angles changes start and end angle by the same multiple of a full turn and brings the start angle into one turn.",
  ["inputs"], "every sweep, every fraction, every intermediate advance", "The one sweep test evaluates three fractions of one axis-aligned sweep; the interplay of advance and interpolation over all fractions is not exercised.",
  ["src/b2_math.rs"], [("sweep get_transform / advance / normalize", "src/b2_math.rs")], ["B2Sweep public methods"])
p("P03", "Box operations: containment, union, overlap and box ray cast are exact",
  "Two boxes are reported overlapping exactly when they share a point; the union of boxes contains both and is the smallest such box; containment, centre, extents and perimeter have their geometric meaning. "
  "Ray casting against a box reports a hit exactly for rays that enter the box within the allowed fraction range, at the entry point, with the unit normal of the side entered.",
  ["inputs"], "every pair of boxes and every ray, including axis-parallel ones", "No test calls any of the box functions directly; the worlds of the tests reach a handful of box configurations.",
  ["src/b2_collision.rs", "src/private/collision/b2_collision.rs"], [("box methods", "src/b2_collision.rs"), ("box ray cast", "src/private/collision/b2_collision.rs")], ["B2AABB methods", "b2_test_overlap"])
p("P04", "The dynamic tree stays well formed and its queries are exact for every history",
  "After any sequence of creating, moving and destroying proxies (and rebuilding or shifting the origin) the tree is a binary tree whose leaves are exactly the live proxies, every inner box contains the boxes below it and heights (and the reported balance and area ratio) are right; a live proxy keeps its id and user data and its stored box contains the box last given for it. "
  "A box query visits exactly the live proxies whose stored box overlaps the query box, each once, and stops when the callback says so; a ray cast never skips a live proxy whose stored box the remaining ray crosses. "
  "Moving a proxy within its stored box leaves the tree untouched unless that box has become far too large.",
  ["histories", "inputs"], "every history of create / move / destroy / query operations and every box", "The tests insert at most a few proxies and never query the tree directly; balance rotations, free-list reuse and deep trees are never reached.",
  ["src/b2_dynamic_tree.rs", "src/private/collision/b2_dynamic_tree.rs"],
  [("insert / remove / balance / free list", "src/private/collision/b2_dynamic_tree.rs"), ("query / ray cast", "src/b2_dynamic_tree.rs")], ["query callbacks", "get_fat_aabb", "get_height", "validate"])
p("P05", "The broad phase reports exactly the new overlapping pairs",
  "Updating pairs reports every pair of live proxies of which at least one was created, re-inserted or touched since the last update and whose stored boxes overlap, and no other pair, never a proxy with itself and never a destroyed one; a pair is reported once if its proxies were created or re-inserted once each since then and not touched. "
  "The proxy count equals the number of live proxies and destroyed proxies leave the move buffer.",
  ["histories", "inputs"], "every history of proxy operations between pair updates", "The tests drive the broad phase only through a world with two or three fixtures.",
  ["src/b2_broad_phase.rs", "src/private/collision/b2_broad_phase.rs"],
  [("move buffer and pair buffer", "src/private/collision/b2_broad_phase.rs"), ("update_pairs", "src/b2_broad_phase.rs")], ["pair callback", "get_proxy_count", "test_overlap"])
p("P06", "A shape's bounding box contains the whole shape in every pose",
  "For every circle, edge, polygon and chain segment, in every position and orientation, the computed bounding box contains every point of the shape including its skin radius. "
  "It is no larger than needed: each side of the box touches the shape's skin.",
  ["inputs", "configurations"], "every shape, every transform", "Tests place a few shapes axis-aligned; rotated poses and all vertex counts are not covered.",
  ["src/private/collision/b2_circle_shape.rs", "src/private/collision/b2_edge_shape.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_chain_shape.rs"],
  [("compute_aabb of each shape", "src/private/collision/")], ["compute_aabb"])
p("P07", "Mass, centre and inertia of shapes and bodies follow from geometry",
  "Mass, centroid and rotational inertia of circles and polygons equal density times the exact area integrals, for every placement of the shape; edges and chains have no mass. "
  "A dynamic body's mass, centre and inertia are the sums over its fixtures (parallel-axis corrected to the centre of mass, inverse values matching, fixed rotation giving no rotational inertia), and recomputing or overriding mass data keeps the body's motion: the velocity of the material at the new centre is what it was.",
  ["inputs", "configurations"], "every shape, density and set of fixtures", "One test compares the mass of two fixed polygons; bodies with several offset fixtures and mass changes on moving bodies are not reached.",
  ["src/private/collision/b2_circle_shape.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/dynamics/b2_body.rs"],
  [("compute_mass of each shape", "src/private/collision/"), ("reset_mass_data / set_mass_data", "src/private/dynamics/b2_body.rs")], ["compute_mass", "get_mass", "get_inertia", "get_local_center", "get_linear_velocity"])
p("P08", "Point tests and ray casts against shapes are geometrically exact",
  "A point is reported inside a circle or polygon exactly when it is inside, in every pose. "
  "A ray cast against a circle, polygon, edge or chain segment reports a hit only at a point of the shape's boundary within the allowed fraction range, the first one where the ray enters, with the unit outward normal there (for edges: facing the ray origin, one-sided edges only from their front), and reports no miss when the ray does enter the shape from outside within the range.",
  ["inputs"], "every shape, pose, point and ray", "No test casts a ray or tests a point.",
  ["src/private/collision/b2_circle_shape.rs", "src/private/collision/b2_edge_shape.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_chain_shape.rs"],
  [("ray_cast / test_point of each shape", "src/private/collision/")], ["ray_cast", "test_point"])
p("P09", "Polygon and chain construction yields the stated geometry",
  "A polygon made from points is their convex hull in counter-clockwise order with nearly coincident points merged, its edge normals are unit, outward and perpendicular, and its centroid lies inside; boxes have exactly the requested half sizes, centre and angle. "
  "Chains keep the given vertices in order; a loop is closed; each child segment carries the right end points and the neighbours (or ghost vertices) on both sides, and an edge keeps the vertices it was given; a copy of a shape equals it in every value.",
  ["inputs", "configurations"], "every point set (up to the vertex limit), every chain length", "Tests build boxes and two polygons only; chains are not tested at all.",
  ["src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_chain_shape.rs", "src/private/collision/b2_edge_shape.rs"],
  [("polygon set / set_as_box", "src/private/collision/b2_polygon_shape.rs"), ("create_loop / create_chain / get_child_edge", "src/private/collision/b2_chain_shape.rs")], ["shape fields after construction"])
p("P10", "Contact manifolds describe the real overlap of the two shapes",
  "Two shapes get contact points exactly when they are closer than the sum of their radii (circle pairs, circle-polygon, circle-edge), the world normal is a unit vector pointing from the first to the second shape, and each contact point lies midway between the two surfaces with the reported separation, which is never above zero for the circle cases. "
  "Polygon and edge pairs report no points when a face of either shape separates them by more than the radii, and otherwise the ends of the facing edge clipped to the side planes of the reference face that lie within the radii of that face; a one-sided edge collides only on its front and leaves the regions of its neighbours to them. "
  "Clipping keeps exactly the part of a segment behind the plane, contact point states (added, persisted, removed) follow from matching ids, and every pair of fixtures collides by the routine for its two shapes whatever their order.",
  ["inputs", "configurations"], "every pair of shapes and poses", "The tests let boxes rest on each other axis-aligned; circles, edges and rotated poses are not compared with geometry.",
  ["src/private/collision/b2_collide_circle.rs", "src/private/collision/b2_collide_polygon.rs", "src/private/collision/b2_collide_edge.rs", "src/private/collision/b2_collision.rs"],
  [("collide functions", "src/private/collision/"), ("world manifold, clipping, point states", "src/private/collision/b2_collision.rs")], ["B2manifold", "B2worldManifold", "B2pointState"])
p("P11", "Closest-distance queries return true witness points",
  "The two reported points belong to the two shapes in their poses, their distance is the reported distance and no other two points are closer (unless the search stops at its iteration limit), and (with radii) the points are moved onto the skins, or to their midpoint with distance zero when the skins overlap. "
  "The internal closest-point search on up to three support pairs returns the point of their hull closest to the origin, the support function returns a farthest vertex, and overlap tests agree with the distance being zero.",
  ["inputs"], "every pair of convex shapes (up to the vertex limit) and poses", "No test calls the distance query; worlds reach it only through continuous collision, which the tests do not use.",
  ["src/private/collision/b2_distance.rs", "src/b2_distance.rs", "src/b2_collision.rs"],
  [("simplex solve2/solve3, witness points, metric", "src/private/collision/b2_distance.rs")], ["B2distanceOutput", "B2shapeCastOutput", "b2_test_overlap_shapes"])
p("P12", "Time of impact and shape casts never report a time outside the motion",
  "The reported time of impact lies between zero and the requested end, is zero when the shapes start overlapped, and equals the end when the shapes stay separated; the separation used to find it is the true signed distance along the separating axis at that time for the moving shapes. "
  "A shape cast reports a fraction between zero and one before which the shapes stay apart and at which they are within the touching distance, with a unit normal and a point on the fixed shape's skin; no hit means they stay apart for the whole translation, unless they overlap at the start or the search ends inside.",
  ["inputs"], "every pair of swept shapes", "No test uses bullets, continuous collision or shape casts.",
  ["src/private/collision/b2_time_of_impact.rs", "src/private/collision/b2_distance.rs"],
  [("separation function, root finding", "src/private/collision/b2_time_of_impact.rs")], ["B2toioutput", "B2shapeCastOutput"])
p("P13", "Contact impulses push only, obey friction and conserve momentum",
  "When a step resolves contacts, impulses on the two bodies are equal and opposite and act at the contact point, so linear and angular momentum of the pair are unchanged; a body of infinite mass is not moved. "
  "The accumulated normal impulse at each point is never negative and the accumulated tangential impulse never exceeds the friction coefficient times the normal impulse it is solved against. "
  "Solving a single point removes the approach velocity (up to restitution and tangent speed) or leaves a separating one, two-point contacts are solved together so that both points satisfy this, and warm starting re-applies exactly the stored impulses.",
  ["inputs", "configurations"], "every contact configuration, masses, velocities, friction and restitution", "The tests drop one box and compare final position; no test looks at momentum, friction cones or restitution.",
  ["src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/b2_contact_solver.rs"],
  [("initialise, warm start, velocity solve, store", "src/private/dynamics/b2_contact_solver_private.rs")], ["body velocities", "contact impulses reported to listeners"])
p("P14", "Contact position correction only separates, and is bounded",
  "Position correction moves the two bodies along the contact normal with opposite pushes weighted by inverse mass, never pulls bodies together, leaves penetrations within the slop alone, and each correction is at most the configured fraction and maximum. "
  "It reports success exactly when the worst penetration is within its tolerance; in the continuous-collision variant only the two designated bodies move.",
  ["inputs", "configurations"], "every contact manifold type, pose and mass ratio", "No test looks at position correction; worlds reach one manifold type.",
  ["src/private/dynamics/b2_contact_solver_private.rs"],
  [("position solver, separation from manifold", "src/private/dynamics/b2_contact_solver_private.rs")], ["body positions"])
p("P15", "Joint solving applies equal and opposite impulses and meets the constraint",
  "For every joint type, one solver iteration changes the velocities of the connected bodies only by impulses along the joint's constraint directions, equal and opposite (towards the pulley's anchors, in gear ratio for gears), so the pair's linear momentum is unchanged, its angular momentum is unchanged whenever the anchors coincide, and infinite-mass bodies are unaffected; warm starting re-applies exactly the accumulated impulses scaled to the new time step. "
  "After a rigid point, angle or line constraint is solved its velocity error is zero; soft constraints apply the spring-damper impulse.",
  ["inputs", "configurations"], "every joint type, pose, mass distribution and velocity", "One test checks reactions of a hinge at rest; the velocities inside a step and nine of the joint types are not covered.",
  ["src/private/dynamics/joints/", "src/joints/"], [("init_velocity_constraints / solve_velocity_constraints of each joint", "src/private/dynamics/joints/")], ["body velocities after a step", "get_reaction_force"])
p("P16", "Motors and limits never exceed their configured strength and range",
  "A motor's accumulated impulse in a step never exceeds maximum force (torque) times the step, and drives the relative speed to the target when within strength; friction, mouse and motor-joint impulses never exceed their maximum. "
  "A limit pushes only back into range (its accumulated impulse is one-signed), stays inactive inside the range with enough slack, and changing motor or limit settings stores the values, wakes the bodies and resets the limit impulses as documented.",
  ["inputs", "configurations"], "every joint with motor or limits, every speed and setting", "No test enables a motor or limit except one hinge motor flag in examples.",
  ["src/private/dynamics/joints/", "src/joints/"], [("impulse clamps", "src/private/dynamics/joints/"), ("setters", "src/joints/")], ["get_motor_torque", "get_motor_force", "joint speed"])
p("P17", "Joint position correction reduces the joint error symmetrically",
  "Position correction of a joint moves the bodies by opposite pushes weighted with inverse mass (linear momentum neutral), corrects nothing for a joint that is already satisfied or soft, and limits each correction as configured. "
  "It reports the joint as solved exactly when the position error before the correction is within the linear and angular tolerances.",
  ["inputs", "configurations"], "every joint type, pose and mass distribution", "No test inspects position correction of joints.",
  ["src/private/dynamics/joints/"], [("solve_position_constraints of each joint", "src/private/dynamics/joints/")], ["anchor separation", "body positions"])
p("P18", "Joint queries report the state of the joint",
  "Joint definitions initialised from world anchors reproduce those anchors, axes and lengths; anchors, joint angle, translation, speed, length, reference values and ratios reported by a joint are those of the current body poses and velocities. "
  "Reaction force and torque equal the accumulated impulses times the inverse time step, in world directions.",
  ["inputs", "configurations"], "every joint type, body pose and setting", "Only the hinge's reaction force at rest is tested.",
  ["src/joints/"], [("getters, initialize, reactions", "src/joints/")], ["public joint methods"])
p("P19", "Forces, impulses and poses of a body follow rigid-body mechanics",
  "Applying a force, torque or impulse at a point changes only that body's accumulators or velocity by exactly the Newtonian amount about the centre of mass, has no effect on non-dynamic bodies, and wakes a sleeping body only if asked to. "
  "Converting points and vectors between local and world frames is inverse to each other, the velocity at a point is linear plus angular part, and setting the transform moves the origin there with the centre of mass following. "
  "Setting velocity on a static body has no effect and putting a body to sleep zeroes its velocities and forces; body type, bullet, sleep, rotation and gravity settings read back as set.",
  ["inputs", "configurations"], "every body, pose and applied load", "Tests use default bodies under gravity only.",
  ["src/b2_body.rs", "src/private/dynamics/b2_body.rs"], [("apply_*, get_*, set_*", "src/b2_body.rs")], ["public body methods"])
p("P20", "A step integrates motion exactly, within speed caps; static bodies never move",
  "In a step without contacts or joints a dynamic body's velocity becomes the old one plus step times gravity (scaled) and force over mass, damped as documented, and its position advances by step times the new velocity; translation and rotation per step never exceed the configured maxima. "
  "Static bodies never move, kinematic bodies move exactly with their set velocity regardless of forces and gravity, sleeping bodies do not move and get no gravity, and bodies fall asleep only when sleeping is allowed and all bodies of the group have been slow long enough. "
  "Joints and touching solids of bodies that take part are solved together, as often as asked, with the step and settings asked for.",
  ["inputs", "configurations", "histories"], "every body state, force, damping and step size", "One test follows a single falling box; caps, damping, kinematic bodies and sleeping are not covered.",
  ["src/private/dynamics/b2_island_private.rs", "src/private/dynamics/b2_world.rs"], [("island solve", "src/private/dynamics/b2_island_private.rs")], ["get_position", "get_linear_velocity", "is_awake"])
p("P21", "Collision filtering follows groups, categories, joints and body types",
  "Two fixtures with the same non-zero group collide exactly when the group is positive; otherwise they collide exactly when each one's category is in the other's mask. "
  "Two bodies can collide only if at least one is dynamic and no joint with collisions disabled connects them; fixtures of one body never collide. "
  "Changing filter data, adding or removing such a joint, or changing body type is taken into account for existing contacts.",
  ["inputs", "configurations"], "every pair of filters, every set of joints between two bodies", "All tests use the default filter.",
  ["src/b2_world_callbacks.rs", "src/private/dynamics/b2_world_callbacks.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_contact_manager.rs"],
  [("should_collide (filter)", "src/private/dynamics/b2_world_callbacks.rs"), ("should_collide (body)", "src/private/dynamics/b2_body.rs"), ("add_pair", "src/private/dynamics/b2_contact_manager.rs")], ["contacts of a world"])
p("P22", "Contact events alternate and contacts mirror the touching state",
  "For each pair of fixtures begin and end events alternate, begin fires exactly when touching starts and end exactly when it stops (including when a touching contact is destroyed), sensors report touching but never push, pre-solve runs only for touching non-sensor contacts and post-solve reports the impulses of each contact solved. "
  "At most one contact exists per pair of fixture children, it appears in exactly the two bodies' contact lists, and persistent contact points keep their impulses while new ones start at zero. "
  "Friction and restitution of a contact are the mix of the two fixtures (geometric mean, maximum) when it began, unless overridden or reset, and its points in the world are those of its manifold in the present poses.",
  ["histories", "inputs"], "every sequence of pose changes and every manifold transition", "One test counts one begin event of one contact.",
  ["src/private/dynamics/b2_contact.rs", "src/private/dynamics/b2_contact_manager.rs", "src/b2_contact.rs"],
  [("contact update", "src/private/dynamics/b2_contact.rs"), ("create / destroy / collide", "src/private/dynamics/b2_contact_manager.rs")], ["contact listener calls", "contact lists", "get_friction"])
p("P23", "World bookkeeping is consistent under creation and destruction",
  "Body, joint, contact and proxy counts and lists reflect exactly the objects created and not yet destroyed; destroying a body removes its fixtures, contacts and joints (telling the destruction listener) and nothing else, and destroying a fixture or joint detaches it everywhere. "
  "Disabling a body removes it from collision and re-enabling restores it, forces persist or are cleared per step as configured, and shifting the origin translates every body, joint and stored box by the same vector without changing relative geometry.",
  ["histories"], "every sequence of create, destroy, enable, disable and step calls", "Tests create a handful of bodies and never destroy anything.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_fixture.rs"],
  [("create/destroy body, joint, fixture", "src/private/dynamics/b2_world.rs"), ("fixture proxies", "src/private/dynamics/b2_fixture.rs")], ["get_*_count", "lists", "destruction listener"])
p("P24", "World queries visit the right fixtures and honour the callback's answer",
  "An area query offers to the callback every fixture whose stored box overlaps the area and stops as soon as the callback declines. "
  "A world ray cast calls back with the true hit point, normal and fraction of a fixture, clips the ray to the returned fraction, ignores a fixture on a negative answer, ends on zero, and never reports a hit beyond the clipped length.",
  ["inputs", "histories"], "every ray, area and callback behaviour", "No test queries a world.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/b2_dynamic_tree.rs"], [("ray_cast / query_aabb", "src/private/dynamics/b2_world.rs")], ["callbacks"])
p("P25", "Stacks and intrusive lists keep exactly their elements in order",
  "The growable stack is last-in first-out across its inline and heap storage for any number of elements; pushing to the front, removing and iterating the single and doubly linked lists yields exactly the remaining elements in order, once each.",
  ["histories"], "every sequence of push, pop, remove and iterate", "No test exercises the containers directly, least of all beyond the inline capacity.",
  ["src/b2_growable_stack.rs", "src/b2rs_linked_list.rs", "src/b2rs_double_linked_list.rs"], [("containers", "src/b2rs_double_linked_list.rs")], ["iteration order", "pop results"])
p("P26", "A saved world loads back with every value unchanged",
  "Serialising a world and deserialising it yields the same bodies, fixtures, shapes and joints (mouse joints are never saved), with every numeric value, flag and connection in their definitions unchanged.",
  ["inputs", "configurations"], "every value of every field, every joint and shape type", "The serialisation feature is off in the tests.",
  ["src/serialize/", "src/joints/serialize/", "src/shapes/serialize_b2_polygon_shape.rs"], [("serde implementations", "src/serialize/")], ["get_definition of loaded objects"])
p("P27", "Rope simulation keeps pinned points and internal momentum",
  "Pinned rope vertices follow their prescribed motion only; each stretch or bend correction moves the free vertices by pushes that sum to zero when weighted with mass, full-stiffness stretch correction restores rest length exactly, and a straight evenly spaced rope at rest without loads keeps its shape. "
  "Creating, resetting and tuning a rope set every vertex and rest value as documented.",
  ["inputs", "configurations"], "every rope shape, mass distribution and tuning", "No test uses ropes.",
  ["src/b2_rope.rs", "src/private/rope/b2_rope.rs"], [("stretch and bend solvers", "src/private/rope/b2_rope.rs")], ["vertex positions"])
p("P28", "Continuous collision stops bodies at the earliest impact of the step",
  "With continuous collision on, an awake body moving against a static or kinematic body, or a bullet against anything, is stopped at the earliest time of impact within the step, impacts are handled in time order, and only the bodies touching there take part in simulating the rest of the step. "
  "Sensors, disabled contacts, sleeping pairs and pairs of ordinary dynamic bodies are left alone, an impact that turns out not to touch or is vetoed by the listener leaves both motions as they were, and the number of impacts per pair and step is bounded. "
  "The broad-phase box of a moving fixture covers where it starts and where it ends, and an interrupted step is resumed, not begun again.",
  ["inputs", "histories"], "every motion, body type and order of impacts", "No test moves a body fast enough to meet anything within one step.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_fixture.rs", "src/private/dynamics/b2_island_private.rs"],
  [("continuous phase of a step", "src/private/dynamics/b2_world.rs"), ("swept boxes", "src/private/dynamics/b2_fixture.rs")], ["poses and velocities after a step", "contact listener calls"])
p("P29", "Debug drawing shows the world as it is, and only what is asked for",
  "With a category switched on, drawing shows each of its items exactly once and nothing else: every fixture in the current pose of its body, every joint between its anchors with its limits at their places, every contact between the box centres of the two parts that meet, every stored broad-phase box of an enabled body, and every body's centre of mass with its orientation. "
  "The colour of a shape tells bodies without mass, disabled, static, kinematic, sleeping and awake bodies apart, and pinned rope vertices from free ones; nothing is drawn for categories that are off or without a drawer, and drawing changes nothing in the world.",
  ["inputs", "configurations"], "every shape, pose, joint setting, body state and choice of categories", "No test installs a drawer.",
  ["src/private/dynamics/b2_world.rs", "src/b2_draw.rs", "src/private/dynamics/b2_joint.rs", "src/private/dynamics/joints/", "src/private/rope/b2_rope.rs"],
  [("world drawing", "src/private/dynamics/b2_world.rs"), ("joint drawing", "src/private/dynamics/b2_joint.rs"), ("drawing categories", "src/b2_draw.rs")], ["calls of the drawer"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
