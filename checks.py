# property -> parts (harness, build variant, tiers, extra arguments)
Q = ("quick", "thorough"); T = ("thorough",)
STATELESS = "stateless model checking of the real library: exhaustive enumeration of "
CHECKS = {
    "C26": {"parts": [("c26", "s", Q, [])],
            "technique": STATELESS + "operation sequences against abstract data types",
            "note": "Every sequence of operations up to the stated depth from every listed start size and hash function; bounded, element types relocatable."},
    "C01": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; the brute-force geometric oracle decides which pairs an update must and must not report. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C02": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; every pair's event sequence is checked against the Start/Stay*/Exit automaton. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C03": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; filter bits, roles and joint flags are toggled at every point of a history and the next update/query must honour them. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C05": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; all forms of testOverlap/testCollision are compared with brute-force geometry and flags after every step. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C09": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; activation toggles interleaved with every other operation. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C17": {"parts": [("world", "s", Q, []), ("c17", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; type changes interleaved with sleep, activation, moves, joints and colliders. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C18": {"parts": [("world", "s", Q, [])],
            "technique": STATELESS + "API call histories on small worlds in lock-step with an abstract world model and a brute-force geometry oracle",
            "note": "All operation sequences to the stated depth from every listed scene on the real PhysicsWorld; every getter of every object is compared with the model after every step. Bounded: 2-4 bodies, four positions, bodies held in place by lock factors; placements within 0.01 of touching are not judged."},
    "C06": {"parts": [("c06", "life", Q, []), ("c06", "s", Q, [])],
            "technique": STATELESS + "creation, use and destruction histories, with every block under its own AddressSanitizer lifetime and every release compared with its allocation",
            "note": "Every history of the bounded alphabets is executed twice: with allocators replaced by malloc() under AddressSanitizer (use after release, sizes, owners, leaks) and with the real allocators over a strict user allocator (alignment, overlap, balance). Bounded: at most three bodies, three joints, four shapes and two worlds in the exhaustive histories, up to 90 bodies in the growth patterns."},
    "C29": {"parts": [("c29", "s", Q, [])],
            "technique": STATELESS + "item sets, shapes and operation histories with every drawn primitive compared with the geometry of the existing objects and with the contacts of a twin world",
            "note": "Every combination of items, shapes and placements and every history of the bounded alphabet is executed; the complete line and triangle arrays are compared after every update. Bounded by the shapes, the alphabet and the depth."},
    "C07": {"parts": [("c07", "s", Q, [])],
            "technique": STATELESS + "operation histories on the real DynamicAABBTree against a flat list of boxes",
            "note": "Every add/remove/update sequence to the stated depth from empty and pre-filled trees; all answers compared with brute force after every step. Bounded by the box alphabet and depth."},
    "C20": {"parts": [("shapes", "s", Q, []), ("c24", "s", Q, ["--scenario", "rays,lattice,triangles"]), ("c25", "s", Q, ["--scenario", "rays,lattice,small"])],
            "technique": STATELESS + "shapes, API histories, placements and segments over finite grids against double-precision ray casting",
            "note": "Every combination of the listed shapes, construction histories, transforms and grid segments is executed on the real code. Bounded by the grids; a band of 0.2% of the shape size around the surface is not judged; only rays that start outside."},
    "C21": {"parts": [("shapes", "s", Q, []), ("c24", "s", Q, ["--scenario", "bounds"]), ("c25", "s", Q, ["--scenario", "bounds"])],
            "technique": STATELESS + "shapes, API histories, placements and points over finite grids against double-precision geometry; AABB algebra exactly on integer boxes",
            "note": "Every combination of the listed shapes, construction histories, transforms and grid points is executed on the real code; all pairs of small integer boxes. Bounded by the grids; points within 0.1% of the surface are not judged."},
    "C19": {"parts": [("c19", "s", Q, [])],
            "technique": STATELESS + "shape pairs, placements and placement histories over finite grids against double-precision separating-axis and distance geometry",
            "note": "Every combination of the listed shape pairs, rotations, directions, offsets and placement sequences is executed through PhysicsWorld::testOverlap/testCollision/update. Bounded by the grids; placements within 0.2% of touching are not judged."},
    "C04": {"parts": [("c04", "s", Q, [])],
            "technique": STATELESS + "API call histories with exhaustive ray grids against per-collider casts and double-precision geometry",
            "note": "After every step of every operation sequence to the stated depth, every segment x mask x callback policy is cast and compared with Collider::raycast on each collider, which is itself compared with geometry. Bounded: 2-4 bodies, the listed segments; grazing hits within 0.01 are not judged against geometry."},
    "C12": {"parts": [("c12", "s", Q, [])],
            "technique": STATELESS + "call sequences on free bodies in lock-step with a double-precision reference integrator",
            "note": "Every sequence of force/torque/velocity/property/type/update calls to the stated depth from every listed start; all getters compared after every call. Bounded: two bodies, one force and one point value, listed time steps."},
    "C16": {"parts": [("c16", "s", Q, [])],
            "technique": STATELESS + "call sequences on worlds with static, kinematic and dynamic bodies, contacts and joints",
            "note": "Every sequence of operations to the stated depth in every listed scene; after each call and each update static transforms are compared bit for bit with the last ones set, kinematic velocities bit for bit and transforms within 2e-5 of velocity*dt. Kinematic bodies with damping are not judged."},
    "C11": {"parts": [("c11", "s", Q, [])],
            "technique": STATELESS + "call sequences on a body and its colliders against closed-form mass properties",
            "note": "Every sequence of collider/density/size/setter/update/type calls to the stated depth; getters after every call and the response to a force and torque at the end. Bounded: up to 4 colliders, listed shapes and transforms; only the diagonal of the inertia is represented by the library."},
    "C15": {"parts": [("c15", "s", Q, [])],
            "technique": STATELESS + "collision set-ups and their update histories against the laws of momentum, energy, restitution and Coulomb friction",
            "note": "Every combination of shapes, masses, materials, velocities, offsets, creation orders and correction techniques of the listed grids is simulated and every update judged. Bounded by the grids; angular momentum only with isotropic inertia, restitution exactly only for single contacts, Baumgarte may add its bias velocity."},
    "C13": {"parts": [("c13", "s", Q, [])],
            "technique": STATELESS + "joint set-ups, settings and update histories against constraint geometry computed from the body transforms",
            "note": "Every combination of joint type, body types, anchors, axes, orientations, masses, limits, motors and correction techniques of the listed grids is simulated and every update judged. Bounded by the grids; tolerances of some centimetres / hundredths of a radian (larger for Baumgarte, which corrects 20% of the error per step)."},
    "C31": {"parts": [("c31", "s", Q, [])],
            "technique": STATELESS + "lock masks of one or two bodies in collisions, resting contacts and joints, against the promise that nothing happens on a locked axis and momentum is kept on the free ones",
            "note": "Every combination of lock masks with shapes, joints, limits, motors, techniques and orders of the listed grids is simulated and every update judged; a locked axis must stay exactly still. Bounded by the grids and update counts."},
    "C14": {"parts": [("c14", "s", Q, [])],
            "technique": STATELESS + "joint and body create/destroy/modify sequences; differential comparison with each pair alone, contact filter and free-motion oracles",
            "note": "All sequences up to the bound; worlds of up to three jointed pairs or three bodies."},
    "C08": {"parts": [("c08", "s", Q, [])],
            "technique": STATELESS + "scenes brought to sleep and every sequence of disturbing calls; sleep timers, islands and wake-ups recomputed by the harness from public observations",
            "note": "All call sequences up to the bound over the listed scenes; sleep time 0.04-0.4 s."},
    "C27": {"parts": [("c27", "s", Q, []), ("c27t", "smc", Q, [])],
            "technique": STATELESS + "allocate/release/reset histories against a model of outstanding blocks, and every thread schedule under a controlled scheduler with a happens-before race detector",
            "note": "All call sequences up to the bound on the real allocators; all interleavings of the threads at every lock operation."},
    "C10": {"parts": [("c10", "s", Q, [])],
            "technique": STATELESS + "call histories run twice, with and without bystander activity at every place, compared bit for bit",
            "note": "All programs, activities and places of the listed sets on the real library."},
    "C22": {"parts": [("c22", "s", Q, [])],
            "technique": STATELESS + "point sets (all subsets of small grids, orders, duplicates, perturbations, families) through createConvexMesh, each result judged by a hull certificate",
            "note": "Every point set of the listed finite families is turned into a mesh by the real code; the certificate (vertices given, closed oriented manifold, planar outward faces, all points inside) implies that the mesh is the hull up to the tolerance. Bounded: grids up to 3x3x3, listed families and perturbations."},
    "C23": {"parts": [("c23", "s", Q, [])],
            "technique": STATELESS + "data formats, single (and double) defects and creation histories of small meshes, against an independent validity oracle",
            "note": "Each input of the listed finite families is given to the real factory; the user's arrays are overwritten before the result is read. Bounded: small meshes, one defect (two index replacements) at a time."},
    "C24": {"parts": [("c24", "s", Q, [])],
            "technique": STATELESS + "meshes, scales, placements, rays and query shapes of listed families, against testing each triangle in turn in double precision",
            "note": "The oracle knows no tree, no batching and no scaling trick: it places every triangle in the world and tests it. Bounded: the listed meshes, scales, placements, ray and position lattices."},
    "C25": {"parts": [("c25", "s", Q, [])],
            "technique": STATELESS + "height grids, sample types, scales, placements, rays and query shapes, against testing every triangle of every cell in double precision",
            "note": "The oracle triangulates the samples itself and tests all triangles; it knows nothing about cells or traversal. Bounded: the listed fields, every small grid over a few heights, listed scales and lattices."},
    "C30": {"parts": [("c30", "sn", Q, []), ("c30t", "smc", Q, [])],
            "technique": STATELESS + "sets of log destinations, message sequences, logger histories and library calls, with every delivered record compared with what was asked for",
            "note": "Every combination of destinations, levels and formats with all short message sequences, every logger history and library call sequence to the stated depth is executed on the real code; complete outputs are parsed and compared."},
    "C28": {"parts": [("c28", "s", Q, []), ("c28", "d", Q, [])],
            "technique": STATELESS + "inputs of the mathematics functions over finite grids with all special cases, against long double arithmetic and the defining identities",
            "note": "Every input of the listed grids is evaluated by the real code in single and in double precision builds. Bounded by the grids; tolerances are multiples of the rounding unit."},
}
NOT_APPLICABLE = {}
