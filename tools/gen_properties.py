import json
P=[]
OB=lambda o:[o]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state.split(" ")[0].strip(","),"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=OB(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
CD="src/systems/CollisionDetectionSystem.cpp"; PW="src/engine/PhysicsWorld.cpp"; RB="src/body/RigidBody.cpp"; BP="src/systems/BroadPhaseSystem.cpp"
p("C01","update() reports contacts exactly for the eligible overlapping collider pairs",
"After any history of public API calls, PhysicsWorld::update() reports (EventListener::onContact for simulation colliders, onTrigger when one collider is a trigger) every pair of colliders of two different active bodies whose shapes overlap at the start of the update, provided at least one body is neither static nor asleep, and it reports no pair whose shapes are apart. The answer depends only on the current placement and flags, never on how the world got there (order of creation, earlier moves, earlier pairs, growth of the broad-phase tree).",
["histories","inputs"],"all sequences of create/move/resize/destroy/flag operations and updates, for all shape kinds and body types",
"Tests check a handful of fixed scenes; a pair that is lost or kept wrongly needs a particular sequence of moves, removals and updates.",
[CD,BP,"src/engine/OverlappingPairs.cpp","src/collision/broadphase/DynamicAABBTree.cpp"],
[("broad phase pair discovery and removal",CD+":computeBroadPhase/updateOverlappingPairs/removeNonOverlappingPairs"),("middle phase",CD+":computeMiddlePhase"),("fat AABB updates",BP+":updateCollidersComponents")],
"OverlappingPairs (enabled/disabled), broad-phase tree, moved-shapes set","EventListener callbacks of update()")
p("C02","Contact and trigger events form start-stay-exit lifecycles per collider pair",
"For every pair of colliders the events delivered over successive updates form a sequence of episodes Start, Stay*, Exit: Start on the first update in which the pair is reported, Stay on each following update in which it is still reported, and exactly one Exit on the update that first finds it no longer touching. Callbacks always refer to bodies and colliders that currently exist, also when bodies, colliders or joints were created, destroyed, moved, (de)activated or re-flagged between the updates.",
["histories"],"all sequences of moves, flag changes, destruction and updates",
"The previous-frame bookkeeping only goes wrong for particular orders of removal, index remapping and re-creation across frames.",
[CD,"src/engine/OverlappingPairs.cpp","src/collision/CollisionCallback.cpp","src/collision/OverlapCallback.cpp"],
[("lost contact pairs",CD+":addLostContactPair/computeLostContactPairs"),("event type",  "src/collision/CollisionCallback.cpp:getEventType"),("collidingInPreviousFrame",CD+":processPotentialContacts/createContacts")],
"mLostContactPairs, collidingInPreviousFrame/currentFrame of each pair","EventListener::onContact/onTrigger")
p("C03","Filtering bits, collider roles and joint flags decide which pairs may collide",
"Two colliders produce contacts, triggers or collision-query results only if each one's category bits are in the other's collide-with mask; contacts additionally need both to be simulation colliders, trigger events need one of them to be a trigger, and no contact is produced between two bodies linked by at least one existing joint with isCollisionEnabled = false. A changed flag (category, mask, trigger, simulation, joint created or destroyed) is honoured by the very next update or query, whatever the colliders were doing before.",
["histories","configurations"],"all combinations of category/mask bits and roles of the two colliders, and all sequences of changing them between updates",
"Tests set filters once before the first update; changing them while a pair exists takes different code paths.",
[CD,"src/collision/Collider.cpp",PW,"src/engine/OverlappingPairs.cpp"],
[("mask test",CD+":updateOverlappingPairs"),("no-collision pairs",CD+":addNoCollisionPair/removeNoCollisionPair"),("role setters","src/collision/Collider.cpp:setIsTrigger/setIsSimulationCollider/setCollideWithMaskBits")],
None,"EventListener callbacks; testOverlap/testCollision results")
p("C04","World, body and collider ray casts report exactly the colliders hit by the ray",
"PhysicsWorld::raycast notifies, in any order, exactly the active world-query colliders matching the category mask that the segment hits, each at most once with point, normal and fraction equal to Collider::raycast on that collider, subject to the documented clipping/ignore/terminate meaning of the callback's return value; Body::raycast returns the nearest hit of its colliders. This holds after every history of adding, moving, removing, filtering and (de)activating colliders.",
["histories","inputs"],"all histories of mutations and all rays of a bounded family, all callback answers",
"The traversal depends on the tree built by the whole history; tests cast a few rays in one fixed world.",
[BP,"src/collision/broadphase/DynamicAABBTree.cpp","src/body/Body.cpp","src/collision/Collider.cpp",CD],
[("tree ray traversal","src/collision/broadphase/DynamicAABBTree.cpp:raycast"),("leaf callback",BP+":BroadPhaseRaycastCallback::raycastBroadPhaseShape"),("body raycast","src/body/Body.cpp:raycast")],
None,"RaycastCallback::notifyRaycastHit arguments, RaycastInfo")
p("C05","Overlap and collision queries agree with geometry and with one another",
"testOverlap and testCollision, in the two-body, one-body and whole-world forms, report exactly the pairs of world-query-eligible colliders of different bodies whose shapes overlap now and whose filters allow it; the forms agree with each other, are symmetric in their two bodies, and give the same answer however often they are repeated and whatever updates preceded them. testPointInside and getWorldAABB use the current transform of the body.",
["histories","inputs"],"all sequences of moves, flag changes, updates and queries over small worlds",
"Queries share caches (pairs, narrow-phase batches, last-frame data) with the simulation, so mistakes depend on what ran before.",
[CD,"src/body/Body.cpp","src/collision/OverlapCallback.cpp"],
[("query pipeline",CD+":testOverlap/testCollision/computeSnapshotContactPairs/filterOverlappingPairs"),("broad phase before a query",CD+":computeBroadPhase")],
None,"query return values and callbacks")
p("C06","Any order of creating and destroying objects is memory safe and leak free",
"For every sequence of creating, using and destroying worlds, bodies, colliders, joints, shapes and meshes that respects the documented ownership rules, the library never touches freed memory, never releases a block twice or with another size, and returns every block to the user's allocator when PhysicsCommon is destroyed. All addresses it hands out are 16-byte aligned and no two live objects overlap.",
["histories"],"all creation/use/destruction sequences up to the bound, for every kind of object",
"Use-after-free and leaks only show for particular destruction orders, and the custom allocators hide them from ordinary tests.",
["src/engine/PhysicsCommon.cpp",PW,"src/body/Body.cpp","src/memory/MemoryManager.cpp","src/components/Components.cpp"],
[("object registries","src/engine/PhysicsCommon.cpp:destroy*/delete*/release"),("body and joint destruction",PW+":destroyRigidBody/destroyJoint"),("collider removal","src/body/Body.cpp:removeCollider/removeAllColliders")],
None,"user MemoryAllocator, AddressSanitizer")
p("C07","The dynamic AABB tree answers every query like a list of fat AABBs",
"After any sequence of adding, updating and removing objects, the tree's overlap queries report exactly once each object whose fat AABB overlaps the query box, its ray casts visit every object whose fat AABB the ray crosses, every object's fat AABB encloses its last reported AABB, getRootAABB encloses all of them, and updateObject reinserts exactly when the new AABB leaves the fat one (or is forced). Removed identifiers are reused without disturbing live ones.",
["histories"],"all add/update/remove sequences up to the bound, with all queries after each",
"Rotation/balancing and free-list reuse give a different tree for every insertion/removal order.",
["src/collision/broadphase/DynamicAABBTree.cpp"],
[("insert/remove/balance","src/collision/broadphase/DynamicAABBTree.cpp:insertLeafNode/removeLeafNode/balanceSubTreeAtNode"),("queries","src/collision/broadphase/DynamicAABBTree.cpp:reportAllShapesOverlappingWithAABB/raycast")],
"tree nodes and free list","query callbacks and getFatAABB/getRootAABB")
p("C08","Sleeping: only bodies at rest sleep, and whatever disturbs them wakes them",
"A body falls asleep only if sleeping is enabled for the world and every body of its contact/joint island, and all of them stayed below the sleep velocities for the sleep time; while asleep its transform and velocity do not change. Applying a force, torque or velocity, disabling sleep, removing a collider or body it rests on, destroying a joint or being touched by an awake moving body wakes it for the next update, and sleeping never changes which bodies later collide.",
["histories"],"all sequences of disturbances applied to sleeping and awake bodies",
"Sleep moves components and pairs between enabled and disabled partitions; the bugs need a particular operation on a sleeping body.",
[PW,RB,CD,"src/components/RigidBodyComponents.cpp"],
[("island sleep",PW+":updateSleepingBodies/createIslands"),("set sleeping",RB+":setIsSleeping"),("enable/disable pairs","src/engine/OverlappingPairs.cpp:enablePair/disablePair")],
"isSleeping, sleep time, enabled/disabled partitions","RigidBody::isSleeping, getTransform, event callbacks")
p("C09","Deactivating a body removes it from the world; reactivating restores it",
"While a body is inactive it does not move, is not reported by contacts, triggers, overlap queries or ray casts, and its joints act on nothing; after setIsActive(true) it behaves as a body newly created in its present state: it collides, falls, is found by queries and reports events again. Repeating either call changes nothing.",
["histories"],"all interleavings of setIsActive with moves, collider changes, sleep and updates",
"Each subsystem keeps its own enabled partition, so an inconsistent one shows only for some operation order.",
["src/body/Body.cpp",RB,BP,"src/components/Components.cpp"],
[("activation","src/body/Body.cpp:setIsActive; "+RB+":setIsActive"),("component partition","src/components/Components.cpp:setIsEntityDisabled")],
None,"getTransform, events, raycast and overlap results")
p("C10","Simulation is deterministic and independent of bystanders and of queries",
"The same sequence of API calls on freshly created worlds gives bit-identical transforms, velocities and events, whatever the initial contents of memory, whether other worlds of the same or another PhysicsCommon are created, stepped or destroyed in between, and whether the debug renderer or an event listener is attached. Read-only queries (ray cast, overlap, point tests, AABB getters) issued between updates never change the later simulation.",
["histories","configurations"],"all interleavings of two worlds' operations and of query calls with the simulated scene",
"Comparing two complete runs under every interleaving is what a unit test never does.",
[PW,CD,"src/engine/PhysicsCommon.cpp","src/memory/SingleFrameAllocator.cpp"],
[("update",PW+":update"),("shared allocators","src/memory/MemoryManager.cpp"),("query side effects",CD+":testOverlap/testCollision")],
None,"bitwise transforms, velocities and event streams")
p("C11","Mass, centre of mass and inertia follow from the colliders",
"updateMassPropertiesFromColliders sets the mass to the sum of density times volume, the centre of mass to the mass-weighted mean, and the inertia to the parallel-axis sum of the colliders' rotated local tensors, independently of the order colliders were added; the separate mass/centre/inertia updates agree with it. Collider volumes and local inertia match the solid shape, and explicit setters take effect until recomputed.",
["inputs","histories"],"all sequences of adding, moving, re-densifying and removing colliders over grids of shapes and placements",
"Order-dependence and off-origin rotation errors need several rotated colliders with different densities.",
[RB,"src/collision/shapes/BoxShape.cpp","src/collision/shapes/SphereShape.cpp","src/collision/shapes/CapsuleShape.cpp","src/collision/ConvexMesh.cpp"],
[("mass properties",RB+":computeMassAndInertiaTensorLocal/computeCenterOfMass/updateMass*"),("shape inertia","src/collision/shapes/*:getLocalInertiaTensor/getVolume")],
None,"getMass, getLocalCenterOfMass, getLocalInertiaTensor, response to forces")
p("C12","A free rigid body integrates forces, torques, gravity and damping as documented",
"With no contacts or joints, one update of step dt changes an awake dynamic body's velocities by dt times inverse mass/inertia applied to the accumulated force/torque (plus gravity where enabled), divides them by 1 + damping*dt, respects the lock-axis factors, and moves it by velocity*dt; forces given in world or local frame and at the centre or at a point are equivalent to their world-space force and torque. Forces and torques are cleared after each update, and the orientation stays a unit quaternion.",
["inputs","histories"],"all sequences of force/torque/velocity calls and updates over a grid of bodies, orientations and parameters",
"There are many force entry points and parameter combinations; tests exercise a few in isolation.",
["src/systems/DynamicsSystem.cpp",RB],
[("velocity/position integration","src/systems/DynamicsSystem.cpp:integrateRigidBodiesVelocities/integrateRigidBodiesPositions"),("force accumulation",RB+":applyWorldForceAt*/applyLocalForceAt*/apply*Torque")],
None,"getLinearVelocity, getAngularVelocity, getTransform after update()")
p("C13","Joints hold their constraint, limits and motors",
"For every joint type, pair of body types and start placement consistent with the constraint, repeated updates keep the anchors together (ball, hinge, fixed), the free axes only (hinge axis, slider line), the limits respected and the motor at no more than its maximum force driving toward its speed, within a small tolerance. A joint never moves a static body, and joint getters report the geometry that was set.",
["inputs","histories"],"all joint types x body types x placements x limit/motor settings up to the bounds, stepped repeatedly",
"Each (joint, limit, motor, solver technique, warm-start) combination is separate solver code.",
["src/systems/SolveBallAndSocketJointSystem.cpp","src/systems/SolveHingeJointSystem.cpp","src/systems/SolveSliderJointSystem.cpp","src/systems/SolveFixedJointSystem.cpp","src/constraint/HingeJoint.cpp","src/constraint/SliderJoint.cpp"],
[("velocity and position solvers","src/systems/Solve*JointSystem.cpp"),("limits and motors","src/constraint/HingeJoint.cpp; src/constraint/SliderJoint.cpp")],
None,"body transforms relative to the joint frames; joint getters")
p("C14","Joints can be created and destroyed in any order without side effects",
"After any sequence of creating and destroying joints and bodies, each existing joint still connects its own two bodies with its own parameters, destroyed joints constrain nothing, destroying a body destroys exactly its joints, and world joint counts and getters reflect exactly the existing joints. Collision between two bodies is disabled exactly while some existing joint between them says so.",
["histories"],"all create/destroy sequences of several joints of all types on a few bodies",
"Component arrays are compacted by moving the last element, so corruption needs specific destruction orders.",
[PW,"src/components/JointComponents.cpp","src/components/HingeJointComponents.cpp","src/components/BallAndSocketJointComponents.cpp","src/components/FixedJointComponents.cpp","src/components/SliderJointComponents.cpp"],
[("joint creation/destruction",PW+":createJoint/destroyJoint"),("component compaction","src/components/*JointComponents.cpp:moveComponentToIndex/swapComponents/destroyComponent")],
None,"joint getters, body motion, contact events")
p("C15","Contact response separates bodies and obeys restitution, friction and momentum",
"In collisions between free bodies of any masses and shapes, total linear and angular momentum are conserved, kinetic energy never increases, approaching contacts separate with at most the restitution of the materials (and stop when it is zero), friction opposes sliding without reversing it, and bodies resting on a fixed support neither sink through it nor gain energy. This holds with each contact-position-correction technique.",
["inputs","histories"],"all pairs of shapes, masses, bounciness, friction, approach directions and correction techniques of a grid, stepped through the collision",
"Solver errors (wrong sign, wrong body, wrong warm start) appear only for particular mass ratios, offsets and frames.",
["src/systems/ContactSolverSystem.cpp",CD,PW],
[("sequential impulses","src/systems/ContactSolverSystem.cpp:solve/warmStart/initializeContactConstraints"),("material mixing","src/systems/ContactSolverSystem.cpp:computeMixedFrictionCoefficient/RestitutionFactor"),("warm start",CD+":initContactsWithPreviousOnes")],
None,"velocities and positions before and after update()")
p("C16","Static bodies never move and kinematic bodies move only by their own velocity",
"No contact, joint, force, torque, gravity or damping ever changes the transform or velocity of a static body; a kinematic body's velocity changes only through its setters and it advances by exactly velocity*dt per update, whatever it touches or is jointed to. User calls that move them (setTransform, setLinearVelocity) take effect as given.",
["histories","inputs"],"all sequences of force, velocity, joint and contact operations on static and kinematic bodies next to dynamic ones",
"Every solver reads inverse masses separately; a leak shows only for one combination of body type and interaction.",
[RB,"src/systems/DynamicsSystem.cpp","src/systems/ContactSolverSystem.cpp"],
[("inverse mass by type",RB+":setType/setMass"),("type checks in force calls",RB+":apply*")],
None,"getTransform and velocities of static/kinematic bodies")
p("C17","Changing a body's type yields exactly a body of the new type",
"After RigidBody::setType, from any state (awake, asleep, in contact, jointed, inactive), the body behaves on all later updates like a body created with the new type in that state: it moves or not, collides with the same partners, reports the same events, and can be moved, put to sleep and destroyed safely. Changing the type back restores the earlier behaviour, mass and inertia.",
["histories"],"all sequences of type changes interleaved with moves, sleep, activation and updates",
"Type changes enable or disable pairs and components incrementally; mistakes need a certain previous state.",
[RB,CD,PW],[("type change",RB+":setType"),("pair enabling",RB+":checkForDisabledOverlappingPairs/enableOverlappingPairs")],
None,"motion, events and queries after setType")
p("C18","Every object keeps its own state whatever happens to the other objects",
"After any sequence of creating and destroying bodies, colliders and joints and of putting bodies to sleep or deactivating them, every getter of every remaining body, collider and joint returns the value last set on that very object, and counts and indices (getNbRigidBodies, getRigidBody(i), getNbColliders, getCollider(i), getNbJoints) list exactly the existing objects. Entities of destroyed objects are never confused with those of new ones.",
["histories"],"all create/set/destroy/sleep/activate sequences up to the bound",
"Structure-of-arrays storage swaps elements between partitions, so cross-talk depends on the exact order of operations.",
["src/components/Components.cpp","src/components/BodyComponents.cpp","src/components/RigidBodyComponents.cpp","src/components/ColliderComponents.cpp","src/components/TransformComponents.cpp","src/engine/EntityManager.cpp"],
[("swap/move/destroy of components","src/components/*.cpp"),("entity identifiers","src/engine/EntityManager.cpp")],
None,"getters of bodies, colliders and joints")
p("C19","Narrow-phase results describe the true intersection of the two shapes",
"For every pair of convex shapes and placement, the overlap test and the contact test agree with the geometric truth (outside a small tolerance band), are unchanged by swapping the two bodies or moving both by a common rigid motion, and each contact has a unit normal pointing from body 1 to body 2, non-negative penetration depth close to the true depth along that normal, and local points lying on their shapes. A manifold has at most four points and no duplicates.",
["inputs"],"all pairs of shape kinds over grids of relative positions and orientations, both orders, several frames",
"Each shape pair is a separate algorithm with degenerate special cases (parallel edges, concentric, touching) that sampling misses.",
["src/collision/narrowphase/SphereVsSphereAlgorithm.cpp","src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp","src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp","src/collision/narrowphase/SAT/SATAlgorithm.cpp","src/collision/narrowphase/GJK/GJKAlgorithm.cpp","src/collision/narrowphase/GJK/VoronoiSimplex.cpp",CD],
[("per-pair algorithms","src/collision/narrowphase/*"),("manifold reduction",CD+":reducePotentialContactManifolds/reduceContactPoints")],
None,"testOverlap/testCollision and contact callbacks")
p("C20","Shape ray casts return the first intersection with the solid",
"Collider::raycast on any shape and transform reports a hit iff the segment, starting outside the solid, enters it within its maximum fraction; then hitFraction is the entry parameter, worldPoint lies on the surface at that fraction, worldNormal is the outward surface normal there, and body/collider identify the target. Results are unchanged by a common rigid motion of ray and body.",
["inputs"],"all shape kinds, sizes and orientations over grids of ray origins, directions and lengths (including axis-parallel and grazing ones)",
"Axis-parallel, edge-on and truncated rays are special cases that tests list by hand only in part.",
["src/collision/shapes/SphereShape.cpp","src/collision/shapes/BoxShape.cpp","src/collision/shapes/CapsuleShape.cpp","src/collision/shapes/ConvexMeshShape.cpp","src/collision/shapes/TriangleShape.cpp","src/collision/Collider.cpp"],
[("per-shape raycast","src/collision/shapes/*.cpp:raycast"),("frame change","src/collision/Collider.cpp:raycast")],None,"RaycastInfo")
p("C21","testPointInside and AABBs match the solid shape under every transform",
"Collider::testPointInside and Body::testPointInside are true exactly for world points inside a (convex) collider's solid, for every body and collider-local transform, size and scale. Collider::getWorldAABB and Body::getAABB contain the solid and, for convex shapes, touch it on every side; AABB tests (testAABBOverlap, contains, merge, raycast) are exact on boxes.",
["inputs"],"all shape kinds, transforms, sizes over grids of points and boxes",
"Local-to-world mistakes only show with combined body and collider rotations and off-centre points.",
["src/collision/Collider.cpp","src/body/Body.cpp","src/collision/shapes/CollisionShape.cpp","src/collision/shapes/AABB.cpp","src/collision/shapes/ConvexMeshShape.cpp"],
[("point tests","src/collision/shapes/*.cpp:testPointInside"),("AABB","src/collision/shapes/CollisionShape.cpp:computeTransformedAABB; src/collision/shapes/AABB.cpp")],None,"return values")
p("C22","QuickHull yields the convex hull of the points as a closed outward polyhedron",
"For every set of at least four non-coplanar points (with any duplicates, interior, collinear or coplanar points), createConvexMesh from vertices succeeds and yields a convex polyhedron that contains all the points, uses only given points as vertices, has planar convex outward-oriented faces, and is a closed 2-manifold (each half-edge has a twin, Euler's formula holds). Volume, centroid and bounds of the mesh are those of the hull; degenerate inputs are rejected with an error and a null result, not a crash or hang.",
["inputs"],"all point subsets of small grids, in all orders up to the bound, with perturbations and scalings",
"Coplanar and duplicate configurations drive the face-merging code and cannot be sampled meaningfully.",
["src/utils/quickhull/QuickHull.cpp","src/utils/quickhull/QHHalfEdgeStructure.cpp","src/collision/ConvexMesh.cpp","src/collision/HalfEdgeStructure.cpp"],
[("hull construction","src/utils/quickhull/QuickHull.cpp:computeConvexHull"),("half-edge structure","src/collision/HalfEdgeStructure.cpp:computeHalfEdges"),("volume/centroid","src/collision/ConvexMesh.cpp")],None,"ConvexMesh vertices, faces, half-edges, volume, centroid")
p("C23","Mesh creation copies valid data and rejects invalid data with an error",
"createConvexMesh, createTriangleMesh and createHeightField either return an object whose vertices, faces, normals and heights equal the user's data for every supported data type, stride and index width, or return null with at least one error message when indices are out of range, counts are too small, faces are degenerate or the polyhedron is not closed. The user's arrays may be changed or freed afterwards without effect, and invalid input never crashes.",
["inputs","configurations"],"all data types, strides, index types and single-defect corruptions of small meshes",
"Format combinations multiply, and each rejection path must release what was built so far.",
["src/collision/ConvexMesh.cpp","src/collision/TriangleMesh.cpp","src/collision/HeightField.cpp","src/collision/TriangleVertexArray.cpp","src/collision/PolygonVertexArray.cpp","src/collision/VertexArray.cpp","src/engine/PhysicsCommon.cpp"],
[("validation and copying","src/collision/TriangleMesh.cpp:copyData; src/collision/ConvexMesh.cpp:copyVertices; src/collision/HeightField.cpp:init"),("decoding","src/collision/TriangleVertexArray.cpp; src/collision/PolygonVertexArray.cpp; src/collision/VertexArray.cpp")],None,"created mesh getters and messages")
p("C24","A concave mesh behaves as the union of its triangles",
"For every triangle mesh, scale and transform, ray casts against a ConcaveMeshShape report the nearest hit over all its triangles (respecting the raycast side setting), collision against a convex shape is reported iff some triangle touches it, and bounds cover all vertices, exactly as if each triangle were tested in turn. No triangle is missed or tested with another triangle's vertices or normals.",
["inputs"],"all small meshes of a family, scales (including negative), placements, rays and query shapes of a grid",
"A triangle dropped by the per-mesh tree or batch code is only noticed where nothing else is hit.",
["src/collision/shapes/ConcaveMeshShape.cpp","src/collision/TriangleMesh.cpp","src/collision/shapes/TriangleShape.cpp",CD],
[("triangle retrieval","src/collision/shapes/ConcaveMeshShape.cpp:computeOverlappingTriangles"),("raycast","src/collision/shapes/ConcaveMeshShape.cpp:raycast"),("middle phase",CD+":computeConvexVsConcaveMiddlePhase")],None,"raycast and collision results")
p("C25","A height field behaves as the triangulated surface of its samples",
"For every grid size, height data type, integer height scale and scaling, the HeightField returns the given sample at each row/column, its bounds are centred as documented and contain the surface, and ray casts and collisions against a HeightFieldShape equal testing all triangles of its cells. Cells on the borders and extreme heights behave like interior ones.",
["inputs"],"all small grids of heights from a small value set, data types, scales, rays and query shapes of a grid",
"Cell-range and height-offset arithmetic fails only at particular borders, signs and scales.",
["src/collision/HeightField.cpp","src/collision/shapes/HeightFieldShape.cpp"],
[("cell range","src/collision/HeightField.cpp:computeMinMaxGridCoordinates/computeOverlappingTriangles"),("cell ray traversal","src/collision/HeightField.cpp:raycast")],None,"getHeightAt, getVertexAt, raycast and collision results")
p("C26","Containers behave as the abstract sequence, set, map, deque and stack",
"Array, Set, Map, Deque, Stack, LinkedList and Pair return, after any sequence of operations, what the corresponding abstract data type would return, including iteration, equality, copies and iterators returned by removals. Every element is constructed and destroyed exactly once and all memory goes back to the allocator with the size it was requested with.",
["histories"],"all operation sequences up to the bound over small key sets with colliding and distinct hashes",
"Rehashing, bucket reuse, wrap-around and reallocation happen at particular sizes and histories.",
["include/reactphysics3d/containers/Array.h","include/reactphysics3d/containers/Map.h","include/reactphysics3d/containers/Set.h","include/reactphysics3d/containers/Deque.h","include/reactphysics3d/containers/Stack.h","include/reactphysics3d/containers/LinkedList.h"],
[("hash containers","include/reactphysics3d/containers/Map.h; include/reactphysics3d/containers/Set.h"),("array growth","include/reactphysics3d/containers/Array.h"),("deque chunks","include/reactphysics3d/containers/Deque.h")],None,"container API")
p("C27","Allocators hand out disjoint aligned memory under any history and schedule",
"Heap, pool and single-frame allocators return 16-byte aligned blocks that overlap no other live block and keep their contents until released, whatever the sequence of sizes, releases, growth and frame resets, and give everything back to the base allocator when destroyed. Concurrent calls on one allocator from several threads have the same effect as some sequential order and race on no memory.",
["histories","schedules"],"all allocate/release/reset sequences up to the bound over size classes, and all schedules of two threads",
"Splitting, merging and growth depend on the precise history; lock omissions need a particular schedule.",
["src/memory/HeapAllocator.cpp","src/memory/PoolAllocator.cpp","src/memory/SingleFrameAllocator.cpp"],
[("unit splitting and merging","src/memory/HeapAllocator.cpp:splitMemoryUnit/mergeUnits/release"),("size classes","src/memory/PoolAllocator.cpp"),("frame growth","src/memory/SingleFrameAllocator.cpp:reset")],None,"returned addresses and contents; base allocator calls; ThreadSanitizer")
p("C28","Vector, matrix, quaternion and transform operations satisfy their algebraic laws",
"Inverse, transpose, product, cross/dot, normalisation, interpolation and conversion functions satisfy their defining identities (A*A^-1 = I, quaternion-matrix round trip gives the same rotation, transform composition equals successive application, slerp stays on the arc) up to rounding, for every input of the documented domain, including axis-aligned, half-turn and nearly-degenerate ones. Geometric helper functions (barycentric coordinates, closest points, plane clipping) return points satisfying their definition.",
["inputs"],"all inputs of dense grids including special rotations and degenerate directions",
"Branches on the largest diagonal element, sign and near-parallel thresholds need special inputs.",
["include/reactphysics3d/mathematics/Quaternion.h","src/mathematics/Quaternion.cpp","include/reactphysics3d/mathematics/Matrix3x3.h","include/reactphysics3d/mathematics/Transform.h","include/reactphysics3d/mathematics/mathematics_functions.h"],
[("conversion","src/mathematics/Quaternion.cpp:initWithEulerAngles/Quaternion(Matrix3x3)/slerp"),("helpers","include/reactphysics3d/mathematics/mathematics_functions.h")],None,"function results")
p("C29","The debug renderer draws exactly the requested items of the existing objects",
"With debug rendering on, after each update the renderer holds exactly the primitives for the enabled items: for every collider with its debug flag the lines of its AABB and the triangles of its shape at its current transform, and per contact point its markers and normals; disabled items and destroyed or hidden objects contribute nothing, and nothing accumulates over frames. Turning rendering off leaves it empty.",
["histories","configurations"],"all combinations of displayed items with sequences of object changes and updates",
"Accumulation and stale geometry show only over several frames with objects coming and going.",
["src/utils/DebugRenderer.cpp",PW],
[("primitive generation","src/utils/DebugRenderer.cpp:computeDebugRenderingPrimitives"),("reset per frame","src/utils/DebugRenderer.cpp:reset")],None,"getLinesArray, getTrianglesArray")
p("C30","Log messages reach exactly the destinations and levels that asked for them",
"A DefaultLogger delivers each message to every registered destination whose maximum level admits it (Error < Warning < Information), once, with its text, category, level and world name, in order, for each output format; other destinations get nothing. Removing destinations or the logger stops delivery, and misuse of the API (for instance an invalid shape size) is reported at Error level.",
["histories","configurations"],"all sets of destinations, levels and formats with all short message sequences",
"Level masks and multiple destinations combine; tests do not cover the logger.",
["include/reactphysics3d/utils/DefaultLogger.h","src/utils/DefaultLogger.cpp","include/reactphysics3d/utils/Logger.h"],
[("level filter","include/reactphysics3d/utils/DefaultLogger.h:write"),("routing","src/utils/DefaultLogger.cpp:log")],None,"streams and files written")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
