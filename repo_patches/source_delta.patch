From fc1a7528583fe9398b4e7ce36a33e0792f6d80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 01/78] fix: Set and Map: reset the free list when clear()
 releases the memory

---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From 80cb3cf3e8f99babbfb3404d235497b053176ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 02/78] fix: Deque: keep the first item index consistent when
 copying a deque

---
 include/reactphysics3d/containers/Deque.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..ccb9c11 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -280,6 +280,9 @@ class Deque {
 
             if (deque.mSize > 0) {
 
+                // Place the items at the same location as in the copied deque
+                mFirstItemIndex = deque.mFirstItemIndex;
+
                 // Add the items into the deque
                 for(uint64 i=0; i < deque.mSize; i++) {
 
@@ -465,6 +468,9 @@ class Deque {
 
                 if (deque.mSize > 0) {
 
+                    // Place the items at the same location as in the copied deque
+                    mFirstItemIndex = deque.mFirstItemIndex;
+
                     // Add the items into the deque
                     for(uint64 i=0; i < deque.mSize; i++) {
 
-- 
2.43.0


From af0badf6cf66f158609650136ac86204c8ea7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 03/78] fix: Stack: destroy the old elements when the stack
 grows

---
 include/reactphysics3d/containers/Stack.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..0104ebd 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destroy the previous items
+                    for (uint64 i=0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From 3aaa9fc221e5c0ce5fda3c0a7a27ac7e301dffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 04/78] fix: LinkedList: destroy the elements in reset()

---
 include/reactphysics3d/containers/LinkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reactphysics3d/containers/LinkedList.h b/include/reactphysics3d/containers/LinkedList.h
index 3910738..8a723d1 100644
--- a/include/reactphysics3d/containers/LinkedList.h
+++ b/include/reactphysics3d/containers/LinkedList.h
@@ -117,6 +117,7 @@ RP3D_FORCE_INLINE void LinkedList<T>::reset() {
     ListElement* element = mListHead;
     while (element != nullptr) {
         ListElement* nextElement = element->next;
+        element->~ListElement();
         mAllocator.release(element, mElementAllocationSize);
         element = nextElement;
     }
-- 
2.43.0


From 6c4364e6a84c4b52937d10a9eb76735c5f21d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 05/78] fix: OverlappingPairs: setNeedToTestOverlap() on a
 disabled pair

---
 include/reactphysics3d/engine/OverlappingPairs.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..a18c397 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,11 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
+    // Note that the pair might currently be disabled
+    OverlappingPair* pair = getOverlappingPair(pairId);
+    assert(pair != nullptr);
 
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    pair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
-- 
2.43.0


From c076101efeb2f77b7cd1a9120977d2f9665d78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 06/78] fix: RigidBody: do not disable an overlapping pair that
 is already disabled

---
 src/body/RigidBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..20b24c4 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1139,7 +1139,7 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
             // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            if (isBody1Disabled && isBody2Disabled && pair->isEnabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
-- 
2.43.0


From 356fe9b9356cf78d38b1019feefecf2676ae3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 07/78] fix: RigidBody::setType(): update the state of the
 overlapping pairs and keep inactive bodies disabled

---
 src/body/RigidBody.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 20b24c4..330bc41 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,17 +108,28 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
 
-    // Awake the body
-    setIsSleeping(false);
+    // Disable/Enable the body if necessary (components of static bodies and of inactive bodies are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
+
+    // Awake the body (a static body is always awake and an inactive dynamic or kinematic body is always sleeping)
+    mWorld.mRigidBodyComponents.setIsSleeping(mEntity, !isActive && type != BodyType::STATIC);
+    mWorld.mRigidBodyComponents.setSleepTime(mEntity, decimal(0.0));
 
     if (type == BodyType::STATIC) {
 
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (isActive) {
+
+        // We need to enable the currently disabled overlapping pairs
+        enableOverlappingPairs();
+
+        // Make sure the broad-phase with recompute the overlapping pairs with this body
+        askForBroadPhaseCollisionCheck();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
-- 
2.43.0


From 23a7c3a0b6f3192c2a03692b2e0a4434c064ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 08/78] fix: RigidBody::setIsActive(): wake up a body that is
 activated

---
 src/body/RigidBody.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 330bc41..7e7a895 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1198,7 +1198,15 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
+    if (isActive) {
+
+        // The body must already be active when we wake it up
+        Body::setIsActive(true);
+        setIsSleeping(false);
+    }
+    else {
 
-    Body::setIsActive(isActive);
+        setIsSleeping(true);
+        Body::setIsActive(false);
+    }
 }
-- 
2.43.0


From 8489663deb2a1172c6dffcc9e37dcd132394f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 09/78] fix: apply changed collision filtering bits to the
 existing overlapping pairs

---
 src/systems/CollisionDetectionSystem.cpp | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..a4fc617 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -304,19 +304,21 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                     // Compute the overlapping pair ID
                     const uint64 pairId = pairNumbers(std::max(nodePair.first, nodePair.second), std::min(nodePair.first, nodePair.second));
 
+                    const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
+                    const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+
+                    const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
+                    const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+
+                    // Check if the collision filtering allows collision between the two shapes
+                    const bool isCollisionAllowed = (shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
+                                                    (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
+
                     // Check if the overlapping pair already exists
                     OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
                     if (overlappingPair == nullptr) {
 
-                        const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
-                        const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
-
-                        const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
-                        const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
-
-                        // Check if the collision filtering allows collision between the two shapes
-                        if ((shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
-                            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0) {
+                        if (isCollisionAllowed) {
 
                             Collider* shape1 = mCollidersComponents.mColliders[collider1Index];
                             Collider* shape2 = mCollidersComponents.mColliders[collider2Index];
@@ -331,6 +333,11 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
+                    else if (!isCollisionAllowed) {
+
+                        // The collision filtering of the colliders has been changed since the pair was created
+                        removeOverlappingPair(pairId, true);
+                    }
                     else {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
-- 
2.43.0


From 14c3a721d4766eae49369f75e953aa8046fb672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 10/78] fix: PhysicsWorld::destroyJoint(): restore the
 collision between the bodies only when it must be

---
 src/engine/PhysicsWorld.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..ff151af 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -610,12 +610,7 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
-    // If the collision between the two bodies of the constraint was disabled
-    if (!joint->isCollisionEnabled()) {
-
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
+    const bool isCollisionEnabled = joint->isCollisionEnabled();
 
     RigidBody* body1 = joint->getBody1();
     RigidBody* body2 = joint->getBody2();
@@ -628,6 +623,32 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mRigidBodyComponents.removeJointFromBody(body1->getEntity(), joint->getEntity());
     mRigidBodyComponents.removeJointFromBody(body2->getEntity(), joint->getEntity());
 
+    // If the collision between the two bodies of the constraint was disabled
+    if (!isCollisionEnabled) {
+
+        // Check if there is another joint that disables the collision between the two bodies
+        bool isCollisionDisabledByOtherJoint = false;
+        const Array<Entity>& otherJoints = mRigidBodyComponents.getJoints(body1->getEntity());
+        for (uint32 i=0; i < otherJoints.size(); i++) {
+
+            const bool isSameBodies = mJointsComponents.getBody1Entity(otherJoints[i]) == body2->getEntity() ||
+                                      mJointsComponents.getBody2Entity(otherJoints[i]) == body2->getEntity();
+            if (isSameBodies && !mJointsComponents.getIsCollisionEnabled(otherJoints[i])) {
+                isCollisionDisabledByOtherJoint = true;
+                break;
+            }
+        }
+
+        if (!isCollisionDisabledByOtherJoint) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+            // Make sure the broad-phase will compute again the overlapping pairs between the two bodies
+            body1->askForBroadPhaseCollisionCheck();
+        }
+    }
+
     size_t nbBytes = joint->getSizeInBytes();
 
     Entity jointEntity = joint->getEntity();
-- 
2.43.0


From 242178415cdc4a5aa2570d1394ccd25c7545be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 11/78] fix: lost contact pairs that are not reported yet must
 not reference removed colliders or released memory

---
 src/systems/CollisionDetectionSystem.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index a4fc617..e5e1437 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -66,7 +66,7 @@ CollisionDetectionSystem::CollisionDetectionSystem(PhysicsWorld* world, Collider
                      mNarrowPhaseInput(mMemoryManager.getSingleFrameAllocator(), mOverlappingPairs), mPotentialContactPoints(mMemoryManager.getSingleFrameAllocator()),
                      mPotentialContactManifolds(mMemoryManager.getSingleFrameAllocator()), mContactPairs1(mMemoryManager.getPoolAllocator()),
                      mContactPairs2(mMemoryManager.getPoolAllocator()), mPreviousContactPairs(&mContactPairs1), mCurrentContactPairs(&mContactPairs2),
-                     mLostContactPairs(mMemoryManager.getSingleFrameAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
+                     mLostContactPairs(mMemoryManager.getHeapAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
                      mContactManifolds1(mMemoryManager.getPoolAllocator()), mContactManifolds2(mMemoryManager.getPoolAllocator()),
                      mPreviousContactManifolds(&mContactManifolds1), mCurrentContactManifolds(&mContactManifolds2),
                      mContactPoints1(mMemoryManager.getPoolAllocator()), mContactPoints2(mMemoryManager.getPoolAllocator()),
@@ -1183,6 +1183,17 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Remove the lost contact pairs involving this collider that have not been reported yet
+    for (uint64 i=0; i < mLostContactPairs.size();) {
+
+        if (mLostContactPairs[i].collider1Entity == collider->getEntity() || mLostContactPairs[i].collider2Entity == collider->getEntity()) {
+            mLostContactPairs.removeAt(i);
+        }
+        else {
+            i++;
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
-- 
2.43.0


From c68029020599234e4e5f6949222fd691fe6d236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 12/78] fix: testCollision() queries must not report contact
 points for trigger colliders

---
 src/systems/CollisionDetectionSystem.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index e5e1437..f303019 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -501,12 +501,16 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
 
+        const bool isCollider1Trigger = mCollidersComponents.mIsTrigger[collider1Index];
+        const bool isCollider2Trigger = mCollidersComponents.mIsTrigger[collider2Index];
+        const bool isContactReported = reportContacts && !isCollider1Trigger && !isCollider2Trigger;
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, isContactReported, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1034,7 +1038,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.isTrigger || contactPair.nbPotentialContactManifolds > 0);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From b0d4ad9581a79ec4da64614a24c6e7c5c3fb6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 13/78] fix: testOverlap() and testCollision() queries on
 bodies must ignore the colliders that are not world query colliders

---
 src/systems/CollisionDetectionSystem.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index f303019..b64cab0 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -1924,8 +1924,10 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
     const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
     for (uint32 i=0; i < nbConvexPairs; i++) {
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2) == bodyEntity) {
+        if ((mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1) == bodyEntity ||
+             mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2) == bodyEntity) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider2)) {
 
             convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
         }
@@ -1935,8 +1937,10 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
     for (uint32 i=0; i < nbConcavePairs; i++) {
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2) == bodyEntity) {
+        if ((mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1) == bodyEntity ||
+             mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2) == bodyEntity) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider2)) {
 
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
@@ -1953,8 +1957,10 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
         const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1);
         const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2);
 
-        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
-            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+        if (((collider1Body == body1Entity && collider2Body == body2Entity) ||
+             (collider1Body == body2Entity && collider2Body == body1Entity)) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider2)) {
 
             convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
         }
@@ -1967,8 +1973,10 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
         const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1);
         const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2);
 
-        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
-            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+        if (((collider1Body == body1Entity && collider2Body == body2Entity) ||
+             (collider1Body == body2Entity && collider2Body == body1Entity)) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider2)) {
 
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
-- 
2.43.0


From 9169bbf42bcee405a22a840d4b2c33c56ee09f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 14/78] fix: overlap and collision queries must not ignore the
 pairs of sleeping or static bodies

---
 src/engine/OverlappingPairs.cpp          |  3 +
 src/systems/CollisionDetectionSystem.cpp | 95 ++++++++++++++----------
 2 files changed, 57 insertions(+), 41 deletions(-)

diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..fc22bfa 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -153,6 +153,9 @@ void OverlappingPairs::removeDisabledConcavePairWithIndex(uint64 pairIndex, bool
     assert(mMapDisabledConcavePairIdToPairIndex[mDisabledConcavePairs[pairIndex].pairID] == pairIndex);
     mMapDisabledConcavePairIdToPairIndex.remove(mDisabledConcavePairs[pairIndex].pairID);
 
+    // Destroy all the LastFrameCollisionInfo objects
+    mDisabledConcavePairs[pairIndex].destroyLastFrameCollisionInfos();
+
     const uint64 nbDisabledPairs = mDisabledConcavePairs.size();
 
     // Change the mapping between the pairId and the index in the disabled pairs array if we swap the last item with the one to remove
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index b64cab0..694773d 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -362,11 +362,12 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
 
     const uint32 nbEnabledColliderComponents = mCollidersComponents.getNbEnabledComponents();
 
-    // For each possible convex vs convex pair of bodies
+    // For each possible convex vs convex pair of bodies (including the disabled ones for a world query)
     const uint64 nbConvexVsConvexPairs = mOverlappingPairs.mConvexPairs.size();
-    for (uint64 i=0; i < nbConvexVsConvexPairs; i++) {
+    const uint64 nbDisabledConvexPairs = isWorldQuery ? mOverlappingPairs.mDisabledConvexPairs.size() : 0;
+    for (uint64 i=0; i < nbConvexVsConvexPairs + nbDisabledConvexPairs; i++) {
 
-        OverlappingPairs::ConvexOverlappingPair& overlappingPair = mOverlappingPairs.mConvexPairs[i];
+        OverlappingPairs::ConvexOverlappingPair& overlappingPair = i < nbConvexVsConvexPairs ? mOverlappingPairs.mConvexPairs[i] : mOverlappingPairs.mDisabledConvexPairs[i - nbConvexVsConvexPairs];
 
         assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != -1);
         assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider2) != -1);
@@ -419,11 +420,12 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         }
     }
 
-    // For each possible convex vs concave pair of bodies
+    // For each possible convex vs concave pair of bodies (including the disabled ones for a world query)
     const uint64 nbConcavePairs = mOverlappingPairs.mConcavePairs.size();
-    for (uint64 i=0; i < nbConcavePairs; i++) {
+    const uint64 nbDisabledConcavePairs = isWorldQuery ? mOverlappingPairs.mDisabledConcavePairs.size() : 0;
+    for (uint64 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
 
-        OverlappingPairs::ConcaveOverlappingPair& overlappingPair = mOverlappingPairs.mConcavePairs[i];
+        OverlappingPairs::ConcaveOverlappingPair& overlappingPair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] : mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
 
         assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != -1);
         assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider2) != -1);
@@ -483,11 +485,10 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         const uint64 pairId = convexPairs[p];
 
-        const uint64 pairIndex = mOverlappingPairs.mMapConvexPairIdToPairIndex[pairId];
-        assert(pairIndex < mOverlappingPairs.mConvexPairs.size());
+        OverlappingPairs::ConvexOverlappingPair& pair = static_cast<OverlappingPairs::ConvexOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
 
-        const Entity collider1Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider1;
-        const Entity collider2Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider2;
+        const Entity collider1Entity = pair.collider1;
+        const Entity collider2Entity = pair.collider2;
 
         const uint32 collider1Index = mCollidersComponents.getEntityIndex(collider1Entity);
         const uint32 collider2Index = mCollidersComponents.getEntityIndex(collider2Entity);
@@ -499,7 +500,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
-        NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
+        NarrowPhaseAlgorithmType algorithmType = pair.narrowPhaseAlgorithmType;
 
         const bool isCollider1Trigger = mCollidersComponents.mIsTrigger[collider1Index];
         const bool isCollider2Trigger = mCollidersComponents.mIsTrigger[collider2Index];
@@ -510,7 +511,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, isContactReported, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, isContactReported, &pair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -519,13 +520,13 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     for (uint32 p=0; p < nbConcavePairs; p++) {
 
         const uint64 pairId = concavePairs[p];
-        const uint64 pairIndex = mOverlappingPairs.mMapConcavePairIdToPairIndex[pairId];
+        OverlappingPairs::ConcaveOverlappingPair& pair = static_cast<OverlappingPairs::ConcaveOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
 
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider1) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider2) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider1) != mCollidersComponents.getBroadPhaseId(pair.collider2));
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(pair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
 
@@ -1922,27 +1923,33 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
 
     // For each convex pairs
     const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbConvexPairs + nbDisabledConvexPairs; i++) {
+
+        const OverlappingPairs::OverlappingPair& pair = i < nbConvexPairs ? mOverlappingPairs.mConvexPairs[i] : mOverlappingPairs.mDisabledConvexPairs[i - nbConvexPairs];
 
-        if ((mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1) == bodyEntity ||
-             mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2) == bodyEntity) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider1) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider2)) {
+        if ((mCollidersComponents.getBody(pair.collider1) == bodyEntity ||
+             mCollidersComponents.getBody(pair.collider2) == bodyEntity) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
+            convexPairs.add(pair.pairID);
         }
     }
 
     // For each concave pairs
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
+
+        const OverlappingPairs::OverlappingPair& pair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] : mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
 
-        if ((mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1) == bodyEntity ||
-             mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2) == bodyEntity) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider1) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider2)) {
+        if ((mCollidersComponents.getBody(pair.collider1) == bodyEntity ||
+             mCollidersComponents.getBody(pair.collider2) == bodyEntity) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
+            concavePairs.add(pair.pairID);
         }
     }
 }
@@ -1952,33 +1959,39 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
 
     // For each convex pair
     const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbConvexPairs + nbDisabledConvexPairs; i++) {
 
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2);
+        const OverlappingPairs::OverlappingPair& pair = i < nbConvexPairs ? mOverlappingPairs.mConvexPairs[i] : mOverlappingPairs.mDisabledConvexPairs[i - nbConvexPairs];
+
+        const Entity collider1Body = mCollidersComponents.getBody(pair.collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(pair.collider2);
 
         if (((collider1Body == body1Entity && collider2Body == body2Entity) ||
              (collider1Body == body2Entity && collider2Body == body1Entity)) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider1) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConvexPairs[i].collider2)) {
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
+            convexPairs.add(pair.pairID);
         }
     }
 
     // For each concave pair
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbConcavePairs + nbDisabledConcavePairs; i++) {
+
+        const OverlappingPairs::OverlappingPair& pair = i < nbConcavePairs ? mOverlappingPairs.mConcavePairs[i] : mOverlappingPairs.mDisabledConcavePairs[i - nbConcavePairs];
 
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2);
+        const Entity collider1Body = mCollidersComponents.getBody(pair.collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(pair.collider2);
 
         if (((collider1Body == body1Entity && collider2Body == body2Entity) ||
              (collider1Body == body2Entity && collider2Body == body1Entity)) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider1) &&
-            mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[i].collider2)) {
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider1) &&
+            mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
+            concavePairs.add(pair.pairID);
         }
     }
 }
-- 
2.43.0


From 618ffe45e41ccd72380414b16703e84bb9890282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 15/78] fix: Collider::raycast(): do not modify the raycast
 info when there is no hit

---
 src/collision/Collider.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..8a3fdce 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -183,10 +183,13 @@ bool Collider::raycast(const Ray& ray, RaycastInfo& raycastInfo) {
     const CollisionShape* collisionShape = mBody->mWorld.mCollidersComponents.getCollisionShape(mEntity);
     bool isHit = collisionShape->raycast(rayLocal, raycastInfo, this, mMemoryManager.getPoolAllocator());
 
-    // Convert the raycast info into world-space
-    raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
-    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
-    raycastInfo.worldNormal.normalize();
+    if (isHit) {
+
+        // Convert the raycast info into world-space
+        raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
+        raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
+        raycastInfo.worldNormal.normalize();
+    }
 
     return isHit;
 }
-- 
2.43.0


From 64840f4cb48e663e2c0336646cc14188ba18febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 16/78] fix: DynamicAABBTree: query on an empty tree

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0


From 79f916ef0ca2675fe80d491b7bdffb5af3213efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 17/78] fix: do not report both a lost contact and a new
 contact for a pair that is removed and created again between two frames

---
 src/systems/CollisionDetectionSystem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 694773d..535b212 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -330,6 +330,15 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 
                                 // Add the new overlapping pair
                                 mOverlappingPairs.addPair(collider1Index, collider2Index, isShape1Convex && isShape2Convex);
+
+                                // If this pair was in contact and has been removed since the last frame, its contact is not lost anymore
+                                for (uint64 j=0; j < mLostContactPairs.size(); j++) {
+                                    if (mLostContactPairs[j].pairId == pairId) {
+                                        mOverlappingPairs.getOverlappingPair(pairId)->collidingInPreviousFrame = true;
+                                        mLostContactPairs.removeAt(j);
+                                        break;
+                                    }
+                                }
                             }
                         }
                     }
-- 
2.43.0


From 2d466e45ff0cd9cfcaffc3105f6db72aa991f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 18/78] fix: overlap and collision queries must not modify the
 colliding state of the overlapping pairs

---
 src/systems/CollisionDetectionSystem.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 535b212..7576c06 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -403,7 +403,10 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        // A world query must not change the state of the pair
+        if (!isWorldQuery) {
+            overlappingPair.collidingInCurrentFrame = false;
+        }
 
         const bool isBody1Enabled = collider1Index < nbEnabledColliderComponents;
         const bool isBody2Enabled = collider2Index < nbEnabledColliderComponents;
@@ -456,7 +459,10 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        // A world query must not change the state of the pair
+        if (!isWorldQuery) {
+            overlappingPair.collidingInCurrentFrame = false;
+        }
 
         // Only test for collision for a world query and both colliders are world query colliders or
         // if it is not a world query and both colliders are either triggers or simulation colliders
@@ -883,7 +889,7 @@ bool CollisionDetectionSystem::computeNarrowPhaseCollisionSnapshot(NarrowPhaseIn
         Array<ContactPoint> contactPoints(allocator);
 
         // Process all the potential contacts after narrow-phase collision
-        processAllPotentialContacts(narrowPhaseInput, true, potentialContactPoints, potentialContactManifolds, &contactPairs);
+        processAllPotentialContacts(narrowPhaseInput, false, potentialContactPoints, potentialContactManifolds, &contactPairs);
 
         // Reduce the number of contact points in the manifolds
         reducePotentialContactManifolds(&contactPairs, potentialContactManifolds, potentialContactPoints);
@@ -1259,7 +1265,10 @@ void CollisionDetectionSystem::processPotentialContacts(NarrowPhaseInfoBatch& na
             OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
             assert(overlappingPair != nullptr);
 
-            overlappingPair->collidingInCurrentFrame = true;
+            // A collision query must not change the state of the pair
+            if (updateLastFrameInfo) {
+                overlappingPair->collidingInCurrentFrame = true;
+            }
 
 
             const Entity collider1Entity = narrowPhaseInfoBatch.narrowPhaseInfos[i].colliderEntity1;
-- 
2.43.0


From 986ce5dd41675addb9088d698071c5a36a3e58c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 19/78] fix: AABB::testRayIntersect(): do not miss the box when
 the ray lies exactly on a slab

---
 .../reactphysics3d/collision/shapes/AABB.h    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index e180706..a7cfaf0 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -289,29 +289,27 @@ RP3D_FORCE_INLINE bool AABB::testRayIntersect(const Vector3& rayOrigin, const Ve
     // t1 = -t2 = +- INFINITY. Since max(n, -INFINITY) = min(n, INFINITY) = n for all n, tMin and tMax will stay unchanged. Secondly, if the i
     // coordinate of the ray's origin is outside the box (rayOrigin[i] < mMinCoordinates[i] or rayOrigin[i] > mMaxCoordinates[i]) we have
     // t1 = t2 = +- INFINITY and therefore either tMin = +INFINITY or tMax = -INFINITY. One of those values will stay until the end and make the
-    // method to return false. Unfortunately, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
-    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN which is a problem for the remaining of the algorithm.
-    // This will cause the method to return true when the ray is not intersecting the AABB and therefore cause to traverse more nodes than necessary in
-    // the BVH tree. Because this should be rare, it is not really a big issue.
+    // method to return false. Finally, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
+    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN (or the same for t2). In this case, the whole
+    // ray is inside the slab and we must not take the i coordinate into account.
     // Reference: https://tavianator.com/2011/ray_box.html
 
-    decimal t1 = (mMinCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
-    decimal t2 = (mMaxCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
+    decimal tMin = decimal(0.0);
+    decimal tMax = rayMaxFraction;
 
-    decimal tMin = std::min(t1, t2);
-    decimal tMax = std::max(t1, t2);
-    tMax = std::min(tMax, rayMaxFraction);
+    for (int i = 0; i < 3; i++) {
 
-    for (int i = 1; i < 3; i++) {
+        const decimal t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        const decimal t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
 
-        t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
-        t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        // If the ray lies exactly on the slab
+        if (std::isnan(t1) || std::isnan(t2)) continue;
 
         tMin = std::max(tMin, std::min(t1, t2));
         tMax = std::min(tMax, std::max(t1, t2));
     }
 
-    return tMax >= std::max(tMin, decimal(0.0));
+    return tMax >= tMin;
 }
 
 // Compute the intersection of a ray and the AABB
-- 
2.43.0


From 9ad64d5629a7740e5cdba1e2dbebaf3a04e2ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 20/78] fix: ConvexMeshShape: take the scale into account in
 support points, ray casts and point tests

---
 src/collision/shapes/ConvexMeshShape.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..af4bc63 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -86,7 +86,7 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
         // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
@@ -122,7 +122,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +192,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From b443fc3cfb647432d7f2312d3ba9893d730855a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 21/78] fix: CapsuleShape::raycast(): do not take short rays or
 short capsules for parallel to the axis

---
 src/collision/shapes/CapsuleShape.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..53d278b 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    const decimal epsilon = decimal(0.00001);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -122,8 +122,9 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal k = m.dot(m) - mMargin * mMargin;
     decimal c = dDotD * k - mDotD * mDotD;
 
-    // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    // If the ray is parallel to the capsule axis (a is the squared sine of the angle between the ray and the axis
+    // multiplied by the squared lengths of both segments)
+    if (std::abs(a) < epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From d3e0ef168560ed030b33204638af44ff745e232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 22/78] fix: ConvexMeshShape: the local origin is not
 necessarily inside the mesh, do not assert it when computing a support point

---
 src/collision/shapes/ConvexMeshShape.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index af4bc63..6e6946d 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -95,8 +95,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
-- 
2.43.0


From f9ff034bf7642f420ca8e2e86204d7f08f5c3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 23/78] fix: SATAlgorithm: do not report a contact along the
 separating axis of the previous frame without checking that the polyhedra
 really overlap

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  6 ++-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 45 ++++++++++++++++---
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 74e3bf2..a2f6400 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -133,7 +133,11 @@ class SATAlgorithm {
         bool computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
                                                             const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
-                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                            bool isOverlapVerified) const;
+
+        /// Return true if a point (in local-space of the polyhedron) is inside the polyhedron
+        bool isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const;
 
 
     public :
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 841f190..296abd9 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -545,7 +545,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, false)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -585,7 +585,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, false)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -652,7 +652,11 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         const decimal edge2LengthSquare = edge2Direction.lengthSquare();
                         decimal t1 = vec1.dot(edge2Direction) / edge2LengthSquare;
                         decimal t2 = vec2.dot(edge1Direction) / edge1LengthSquare;
-                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0)) {
+                        // The shapes might also be separated along another axis. Therefore, we also need to be sure that one of
+                        // the two points is inside the other polyhedron.
+                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0) &&
+                            (isPointInsidePolyhedron(polyhedron2, closestPointPolyhedron1Edge) ||
+                             isPointInsidePolyhedron(polyhedron1, polyhedron2ToPolyhedron1 * closestPointPolyhedron2Edge))) {
 
                             // If we need to report contact points
                             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
@@ -830,7 +834,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
             // Compute the contact points between two faces of two convex polyhedra.
             bool contactsFound = computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1,
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
-                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex);
+                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex, true);
 
             // There should be clipping points here. If it is not the case, it might be
             // because of a numerical issue
@@ -888,12 +892,27 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
     return isCollisionFound;
 }
 
+// Return true if a point (in local-space of the polyhedron) is inside the polyhedron
+bool SATAlgorithm::isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const {
+
+    // For each face of the polyhedron
+    for (uint32 f = 0; f < polyhedron->getNbFaces(); f++) {
+
+        const Vector3 facePoint = polyhedron->getVertexPosition(polyhedron->getFace(f).faceVertices[0]);
+        if ((point - facePoint).dot(polyhedron->getFaceNormal(f)) > SEPARATING_AXIS_ABSOLUTE_TOLERANCE) return false;
+    }
+
+    return true;
+}
+
 // Compute the contact points between two faces of two convex polyhedra.
-/// The method returns true if contact points have been found
+/// The method returns true if contact points have been found. If we do not already know that the polyhedra are overlapping
+/// (isOverlapVerified is false), the method only returns true if a clipped point proves that they are really overlapping
 bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1,
                                                                   const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
                                                                   const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
-                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                                  bool isOverlapVerified) const {
 
     RP3D_PROFILE("SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints", mProfiler);
 
@@ -995,6 +1014,20 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getHalfEdge(firstEdgeIndex).vertexIndex);
     bool contactPointsFound = false;
     const uint32 nbClipPolygonVertices = static_cast<uint32>(clippedPolygonVertices.size());
+
+    // If we do not know yet that the polyhedra are overlapping, they might still be separated along another axis than the
+    // reference face normal. Therefore, we need to find a point that is inside the two polyhedra.
+    for (uint32 i=0; i < nbClipPolygonVertices && !isOverlapVerified; i++) {
+
+        if ((referenceFaceVertex - clippedPolygonVertices[i]).dot(axisReferenceSpace) > decimal(0.0)) {
+
+            const Vector3 referenceFacePoint = projectPointOntoPlane(clippedPolygonVertices[i], axisReferenceSpace, referenceFaceVertex);
+            isOverlapVerified = isPointInsidePolyhedron(referencePolyhedron, clippedPolygonVertices[i]) ||
+                                isPointInsidePolyhedron(incidentPolyhedron, referenceToIncidentTransform * referenceFacePoint);
+        }
+    }
+    if (!isOverlapVerified) return false;
+
     for (uint32 i=0; i < nbClipPolygonVertices; i++) {
 
         // Compute the penetration depth of this contact point (can be different from the minPenetration depth which is
-- 
2.43.0


From 6a0ffff6a1f2478d2f433ee9468635728061afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:08 +0000
Subject: [PATCH 24/78] fix: VoronoiSimplex: do not invalidate the closest
 point of a triangle because a barycentric coordinate is negative by rounding

---
 src/collision/narrowphase/GJK/VoronoiSimplex.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index a8ec4ee..8619947 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -439,8 +439,9 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
     decimal v = vb * denom;
     decimal w = vc * denom;
 
-    // Set the barycentric coords of the closest point on the triangle
-    baryCoordsABC.setAllValues(1 - v - w, v, w);
+    // Set the barycentric coords of the closest point on the triangle (when the point is next to
+    // the edge BC, 1 - v - w can be slightly negative because of rounding errors)
+    baryCoordsABC.setAllValues(std::max(decimal(0.0), decimal(1.0) - v - w), v, w);
 
     bitsUsedVertices = 7;    // 0111 (A, B and C are used)
     return;
-- 
2.43.0


From 4e075d75b8a1008a438696715992574905f52bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 25/78] fix: RigidBody::setTransform() must not change the
 linear velocity of a rotating body

---
 src/body/RigidBody.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7e7a895..6fa469a 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -847,19 +847,10 @@ void RigidBody::setAngularVelocity(const Vector3& angularVelocity) {
  */
 void RigidBody::setTransform(const Transform& transform) {
 
-    const Vector3 oldCenterOfMass = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-
     // Compute the new center of mass in world-space coordinates
     const Vector3& centerOfMassLocal = mWorld.mRigidBodyComponents.getCenterOfMassLocal(mEntity);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, transform * centerOfMassLocal);
 
-    // Update the linear velocity of the center of mass
-    Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
-    const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
-    const Vector3& centerOfMassWorld = mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity);
-    linearVelocity += angularVelocity.cross(centerOfMassWorld - oldCenterOfMass);
-    mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, linearVelocity);
-
     if (getType() == BodyType::STATIC) {
 
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
-- 
2.43.0


From cd22a253c307a1474d67dfa79b8ed1744f4de9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 26/78] fix: ContactSolverSystem::warmStart() must not apply
 the twist friction impulse twice

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From fad9f3f68c628d5d85ebdb5e7c6bc730371a7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 27/78] fix: Joint solver systems must invert the effective
 mass whatever its magnitude (joints between heavy bodies were not
 constrained)

---
 src/mathematics/Matrix2x2.cpp                 | 2 +-
 src/systems/SolveBallAndSocketJointSystem.cpp | 4 ++--
 src/systems/SolveFixedJointSystem.cpp         | 8 ++++----
 src/systems/SolveHingeJointSystem.cpp         | 8 ++++----
 src/systems/SolveSliderJointSystem.cpp        | 8 ++++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/mathematics/Matrix2x2.cpp b/src/mathematics/Matrix2x2.cpp
index 9dd03e5..2cba10a 100644
--- a/src/mathematics/Matrix2x2.cpp
+++ b/src/mathematics/Matrix2x2.cpp
@@ -32,7 +32,7 @@ using namespace reactphysics3d;
 Matrix2x2 Matrix2x2::getInverse(decimal determinant) const {
 
     // Check if the determinant is equal to zero
-    assert(std::abs(determinant) > MACHINE_EPSILON);
+    assert(determinant != decimal(0.0));
 
     decimal invDeterminant = decimal(1.0) / determinant;
 
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..78c255c 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -100,7 +100,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mBallAndSocketJointComponents.mInverseMassMatrix[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -398,7 +398,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mBallAndSocketJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 048da03..62e4244 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -93,7 +93,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1 for the 3 translation constraints
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -116,7 +116,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse of the mass matrix K=JM^-1J^t for the 3 rotation contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixRotationDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mInverseMassMatrixRotation[i].getInverse(massMatrixRotationDeterminant);
@@ -342,7 +342,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mFixedJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
@@ -389,7 +389,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixRotationDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..0055a58 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -110,7 +110,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         Matrix3x3& inverseMassMatrixTranslation = mHingeJointComponents.mInverseMassMatrixTranslation[i];
         inverseMassMatrixTranslation.setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -144,7 +144,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixKRotationDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixKRotationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotationDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixKRotationDeterminant);
@@ -620,7 +620,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixDeterminant);
@@ -666,7 +666,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mHingeJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mHingeJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         matrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..3321389 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -185,7 +185,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslationDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -197,7 +197,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = i1 + i2;
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixRotationDeterminant != decimal(0.0)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -700,7 +700,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = mSliderJointComponents.mI1[i] + mSliderJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (massMatrixRotationDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -784,7 +784,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslationDeterminant != decimal(0.0)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
-- 
2.43.0


From 5e321ee72d49fdfc4ba5389b34ab4f7f65276194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 28/78] fix: SolveSliderJointSystem::solvePositionConstraint()
 must not stop at the first joint that does not use Gauss-Seidel correction

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3321389..75945f3 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -524,7 +524,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From c248e939c80b9157698777593faa298db8f5d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 29/78] fix: SolveSliderJointSystem must compute R2 x slider
 axis before using it in the limit mass matrix

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 75945f3..6194447 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -97,6 +97,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(mSliderJointComponents.mN2[i]);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
@@ -155,7 +156,6 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR2CrossN2[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN2[i]);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-- 
2.43.0


From 33fab55e9341b6c76575055c96fd2210d891b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 30/78] fix: HingeJoint: express the initial orientation
 difference in the local space of body 1 so that the angle stays right when
 both bodies rotate

---
 src/constraint/HingeJoint.cpp         | 15 +++++++++++----
 src/systems/SolveHingeJointSystem.cpp | 14 ++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/constraint/HingeJoint.cpp b/src/constraint/HingeJoint.cpp
index 1743034..a3774a6 100644
--- a/src/constraint/HingeJoint.cpp
+++ b/src/constraint/HingeJoint.cpp
@@ -74,11 +74,18 @@ HingeJoint::HingeJoint(Entity entity, PhysicsWorld &world, const HingeJointInfo&
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody1(mEntity, hingeLocalAxisBody1);
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody2(mEntity, hingeLocalAxisBody2);
 
-    // Compute the inverse of the initial orientation difference between the two bodies
-    Quaternion initOrientationDifferenceInv = transform2.getOrientation() *
-                                    transform1.getOrientation().getInverse();
+    // Compute the inverse of the initial rotation r0 from body 1 to body 2 in body 1 space:
+    //
+    // q20 = q10 r0
+    // <=> r0^-1 = q20^-1 q10
+    //
+    // where:
+    //
+    // q20 = initial orientation of body 2
+    // q10 = initial orientation of body 1
+    Quaternion initOrientationDifferenceInv = transform2.getOrientation().getInverse() *
+                                    transform1.getOrientation();
     initOrientationDifferenceInv.normalize();
-    initOrientationDifferenceInv.inverse();
     mWorld.mHingeJointsComponents.setInitOrientationDifferenceInv(mEntity, initOrientationDifferenceInv);
 }
 
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 0055a58..920b5c7 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -760,12 +760,14 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
 
     decimal hingeAngle;
 
-    // Compute the current orientation difference between the two bodies
-    Quaternion currentOrientationDiff = orientationBody2 * orientationBody1.getInverse();
-    currentOrientationDiff.normalize();
-
-    // Compute the relative rotation considering the initial orientation difference
-    Quaternion relativeRotation = currentOrientationDiff * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity);
+    // Compute the rotation (in world-space) of body 2 relative to body 1 since the creation of the joint:
+    //
+    // q2 = relativeRotation q1 r0
+    // <=> relativeRotation = q2 r0^-1 q1^-1
+    //
+    // where r0 is the initial rotation from body 1 to body 2 (in body 1 space)
+    Quaternion relativeRotation = orientationBody2 * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity) *
+                                  orientationBody1.getInverse();
     relativeRotation.normalize();
 
     // A quaternion q = [cos(theta/2); sin(theta/2) * rotAxis] where rotAxis is a unit
-- 
2.43.0


From 3734b897b1ccd7cccfb75a0277127dce5959803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 31/78] fix: RigidBody: the constrained position of a static
 body is its world center of mass

---
 src/body/RigidBody.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 6fa469a..033b6dd 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -77,7 +77,7 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
@@ -349,6 +349,7 @@ void RigidBody::setLocalCenterOfMass(const Vector3& centerOfMass) {
 
     // Compute the center of mass in world-space coordinates
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, mWorld.mTransformComponents.getTransform(mEntity) * centerOfMass);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -386,6 +387,7 @@ void RigidBody::updateLocalCenterOfMassFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -568,6 +570,7 @@ void RigidBody::updateMassPropertiesFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // If it is a dynamic body
     const BodyType type = mWorld.mRigidBodyComponents.getBodyType(mEntity);
@@ -853,7 +856,7 @@ void RigidBody::setTransform(const Transform& transform) {
 
     if (getType() == BodyType::STATIC) {
 
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform * centerOfMassLocal);
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
-- 
2.43.0


From 3ba3827d617b9734767e9ff84e73e59b18c1f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 32/78] fix: SolveHingeJointSystem position solver must use the
 current effective mass for the limits

---
 src/systems/SolveHingeJointSystem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 920b5c7..8c9c089 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -535,16 +535,17 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         if (mHingeJointComponents.mIsLimitEnabled[i]) {
 
-            decimal inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
+            decimal inverseMassMatrixLimitMotor = decimal(0.0);
 
             Vector3& a1 = mHingeJointComponents.mA1[i];
 
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
-                                          decimal(1.0) / mHingeJointComponents.mInverseMassMatrixLimitMotor[i] : decimal(0.0);
+                inverseMassMatrixLimitMotor = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
+                inverseMassMatrixLimitMotor = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
+                                          decimal(1.0) / inverseMassMatrixLimitMotor : decimal(0.0);
+                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = inverseMassMatrixLimitMotor;
             }
 
             // If the lower limit is violated
-- 
2.43.0


From fee6555935d162c0075309a470f0976e26248676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 33/78] fix: SolveHingeJointSystem motor must drive the joint
 toward the motor speed

---
 src/systems/SolveHingeJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 8c9c089..7bd5d6a 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -390,11 +390,11 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
         if (mHingeJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = a1.dot(w1 - w2);
+            const decimal JvMotor = a1.dot(w2 - w1);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From 6fffb65c2badf4f81bd19b34731956e122d4e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/78] fix: BallAndSocketJoint cone half angle must not be NaN
 for nearly parallel vectors

---
 include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
index 84441fd..c129f97 100644
--- a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
+++ b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
@@ -150,7 +150,7 @@ RP3D_FORCE_INLINE void SolveBallAndSocketJointSystem::setIsWarmStartingActive(bo
 RP3D_FORCE_INLINE decimal SolveBallAndSocketJointSystem::computeCurrentConeHalfAngle(const Vector3& coneLimitWorldAxisBody1,
                                                                                      const Vector3& coneLimitWorldAxisBody2) {
 
-    return std::acos(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2));
+    return std::acos(clamp(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2), decimal(-1.0), decimal(1.0)));
 }
 
 }
-- 
2.43.0


From 346d428c26e56b0145707ea00dedada24d90d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 35/78] fix: SolveBallAndSocketJointSystem must use a unit axis
 for the cone limit

---
 src/systems/SolveBallAndSocketJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 78c255c..371f91b 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -118,7 +118,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
 
         const Vector3 r1WorldUnit = r1World.getUnit();
         const Vector3 r2WorldUnit = r2World.getUnit();
-        mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+        mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit).getUnit();
 
         // Compute the current angle around the hinge axis
         decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
@@ -348,7 +348,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             // Check if the cone limit constraints is violated or not
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
-            mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit).getUnit();
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
-- 
2.43.0


From f2f5184324771bf73a63b34dfbb52de4318da01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 36/78] fix: joint limits must act at the velocity level when
 the joint is close to a limit, not only once it is violated

---
 .../systems/SolveBallAndSocketJointSystem.h   |  3 ++
 .../systems/SolveHingeJointSystem.h           |  3 ++
 .../systems/SolveSliderJointSystem.h          |  3 ++
 src/systems/SolveBallAndSocketJointSystem.cpp | 14 ++++++---
 src/systems/SolveHingeJointSystem.cpp         | 29 +++++++++++++------
 src/systems/SolveSliderJointSystem.cpp        | 29 +++++++++++++------
 6 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
index c129f97..5e48c00 100644
--- a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
+++ b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
@@ -51,6 +51,9 @@ class SolveBallAndSocketJointSystem {
         // Beta value for the bias factor of position correction
         static const decimal BETA;
 
+        // The velocity constraint of a limit is active when the angle (in radians) to the limit is smaller than this value
+        static const decimal LIMIT_SLOP;
+
         // -------------------- Attributes -------------------- //
 
         /// Physics world
diff --git a/include/reactphysics3d/systems/SolveHingeJointSystem.h b/include/reactphysics3d/systems/SolveHingeJointSystem.h
index dc7083c..639ac6a 100644
--- a/include/reactphysics3d/systems/SolveHingeJointSystem.h
+++ b/include/reactphysics3d/systems/SolveHingeJointSystem.h
@@ -50,6 +50,9 @@ class SolveHingeJointSystem {
         // Beta value for the bias factor of position correction
         static const decimal BETA;
 
+        // The velocity constraint of a limit is active when the angle (in radians) to the limit is smaller than this value
+        static const decimal LIMIT_SLOP;
+
         // -------------------- Attributes -------------------- //
 
         /// Physics world
diff --git a/include/reactphysics3d/systems/SolveSliderJointSystem.h b/include/reactphysics3d/systems/SolveSliderJointSystem.h
index ebe64ff..9ddc823 100644
--- a/include/reactphysics3d/systems/SolveSliderJointSystem.h
+++ b/include/reactphysics3d/systems/SolveSliderJointSystem.h
@@ -50,6 +50,9 @@ class SolveSliderJointSystem {
         // Beta value for the bias factor of position correction
         static const decimal BETA;
 
+        // The velocity constraint of a limit is active when the distance (in meters) to the limit is smaller than this value
+        static const decimal LIMIT_SLOP;
+
         // -------------------- Attributes -------------------- //
 
         /// Physics world
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 371f91b..adbd425 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -33,6 +33,7 @@ using namespace reactphysics3d;
 
 // Static variables definition
 const decimal SolveBallAndSocketJointSystem::BETA = decimal(0.2);
+const decimal SolveBallAndSocketJointSystem::LIMIT_SLOP = decimal(0.1);
 
 // Constructor
 SolveBallAndSocketJointSystem::SolveBallAndSocketJointSystem(PhysicsWorld& world, RigidBodyComponents& rigidBodyComponents,
@@ -126,7 +127,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Check if the cone limit constraints is violated or not
         decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
         bool oldIsConeLimitViolated = mBallAndSocketJointComponents.mIsConeLimitViolated[i];
-        bool isConeLimitViolated = coneLimitError < 0;
+        bool isConeLimitViolated = coneLimitError < LIMIT_SLOP;
         mBallAndSocketJointComponents.mIsConeLimitViolated[i] = isConeLimitViolated;
         if (!isConeLimitViolated || isConeLimitViolated != oldIsConeLimitViolated) {
             mBallAndSocketJointComponents.mConeLimitImpulse[i] = decimal(0.0);
@@ -144,7 +145,12 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
 
             // Compute the bias "b" of the lower limit constraint
             mBallAndSocketJointComponents.mBConeLimit[i] = decimal(0.0);
-            if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
+            if (coneLimitError > decimal(0.0)) {
+
+                // The limit is not reached yet, it must not be crossed during this step
+                mBallAndSocketJointComponents.mBConeLimit[i] = coneLimitError / mTimeStep;
+            }
+            else if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
                 mBallAndSocketJointComponents.mBConeLimit[i] = biasFactor * coneLimitError;
             }
         }
@@ -351,10 +357,10 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit).getUnit();
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
-            mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
+            const bool isConeLimitViolated = coneLimitError < 0;
 
             // If the cone limit is violated
-            if (mBallAndSocketJointComponents.mIsConeLimitViolated[i]) {
+            if (isConeLimitViolated) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the cone limit (1x1 matrix)
                 decimal inverseMassMatrixConeLimit = mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI1[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]) +
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 7bd5d6a..50dc176 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -32,6 +32,7 @@ using namespace reactphysics3d;
 
 // Static variables definition
 const decimal SolveHingeJointSystem::BETA = decimal(0.2);
+const decimal SolveHingeJointSystem::LIMIT_SLOP = decimal(0.1);
 
 // Constructor
 SolveHingeJointSystem::SolveHingeJointSystem(PhysicsWorld& world, RigidBodyComponents& rigidBodyComponents,
@@ -169,13 +170,13 @@ void SolveHingeJointSystem::initBeforeSolve() {
         decimal lowerLimitError = hingeAngle - mHingeJointComponents.mLowerLimit[i];
         decimal upperLimitError = mHingeJointComponents.mUpperLimit[i] - hingeAngle;
         bool oldIsLowerLimitViolated = mHingeJointComponents.mIsLowerLimitViolated[i];
-        bool isLowerLimitViolated = lowerLimitError <= 0;
+        bool isLowerLimitViolated = lowerLimitError <= LIMIT_SLOP;
         mHingeJointComponents.mIsLowerLimitViolated[i] = isLowerLimitViolated;
         if (!isLowerLimitViolated || isLowerLimitViolated != oldIsLowerLimitViolated) {
             mHingeJointComponents.mImpulseLowerLimit[i] = decimal(0.0);
         }
         bool oldIsUpperLimitViolated = mHingeJointComponents.mIsUpperLimitViolated[i];
-        bool isUpperLimitViolated = upperLimitError <= 0;
+        bool isUpperLimitViolated = upperLimitError <= LIMIT_SLOP;
         mHingeJointComponents.mIsUpperLimitViolated[i] = isUpperLimitViolated;
         if (!isUpperLimitViolated || isUpperLimitViolated != oldIsUpperLimitViolated) {
             mHingeJointComponents.mImpulseUpperLimit[i] = decimal(0.0);
@@ -198,13 +199,23 @@ void SolveHingeJointSystem::initBeforeSolve() {
 
                 // Compute the bias "b" of the lower limit constraint
                 mHingeJointComponents.mBLowerLimit[i] = decimal(0.0);
-                if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
+                if (lowerLimitError > decimal(0.0)) {
+
+                    // The limit is not reached yet, it must not be crossed during this step
+                    mHingeJointComponents.mBLowerLimit[i] = lowerLimitError / mTimeStep;
+                }
+                else if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
                     mHingeJointComponents.mBLowerLimit[i] = biasFactor * lowerLimitError;
                 }
 
                 // Compute the bias "b" of the upper limit constraint
                 mHingeJointComponents.mBUpperLimit[i] = decimal(0.0);
-                if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
+                if (upperLimitError > decimal(0.0)) {
+
+                    // The limit is not reached yet, it must not be crossed during this step
+                    mHingeJointComponents.mBUpperLimit[i] = upperLimitError / mTimeStep;
+                }
+                else if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
                     mHingeJointComponents.mBUpperLimit[i] = biasFactor * upperLimitError;
                 }
             }
@@ -528,8 +539,8 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         // Check if the limit constraints are violated or not
         decimal lowerLimitError = hingeAngle - mHingeJointComponents.mLowerLimit[i];
         decimal upperLimitError = mHingeJointComponents.mUpperLimit[i] - hingeAngle;
-        mHingeJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
-        mHingeJointComponents.mIsUpperLimitViolated[i] = upperLimitError <= 0;
+        const bool isLowerLimitViolated = lowerLimitError <= 0;
+        const bool isUpperLimitViolated = upperLimitError <= 0;
 
         // --------------- Limits Constraints --------------- //
 
@@ -539,7 +550,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
             Vector3& a1 = mHingeJointComponents.mA1[i];
 
-            if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
+            if (isLowerLimitViolated || isUpperLimitViolated) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
                 inverseMassMatrixLimitMotor = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
@@ -549,7 +560,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
             }
 
             // If the lower limit is violated
-            if (mHingeJointComponents.mIsLowerLimitViolated[i]) {
+            if (isLowerLimitViolated) {
 
                 // Compute the Lagrange multiplier lambda for the lower limit constraint
                 decimal lambdaLowerLimit = inverseMassMatrixLimitMotor * (-lowerLimitError );
@@ -576,7 +587,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
             }
 
             // If the upper limit is violated
-            if (mHingeJointComponents.mIsUpperLimitViolated[i]) {
+            if (isUpperLimitViolated) {
 
                 // Compute the Lagrange multiplier lambda for the upper limit constraint
                 decimal lambdaUpperLimit = inverseMassMatrixLimitMotor * (-upperLimitError);
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 6194447..076d7f5 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -32,6 +32,7 @@ using namespace reactphysics3d;
 
 // Static variables definition
 const decimal SolveSliderJointSystem::BETA = decimal(0.2);
+const decimal SolveSliderJointSystem::LIMIT_SLOP = decimal(0.1);
 
 // Constructor
 SolveSliderJointSystem::SolveSliderJointSystem(PhysicsWorld& world, RigidBodyComponents& rigidBodyComponents,
@@ -104,12 +105,12 @@ void SolveSliderJointSystem::initBeforeSolve() {
         decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.mLowerLimit[i];
         decimal upperLimitError = mSliderJointComponents.mUpperLimit[i] - uDotSliderAxis;
         bool oldIsLowerLimitViolated = mSliderJointComponents.mIsLowerLimitViolated[i];
-        mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
+        mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= LIMIT_SLOP;
         if (!mSliderJointComponents.mIsLowerLimitViolated[i] || mSliderJointComponents.mIsLowerLimitViolated[i] != oldIsLowerLimitViolated) {
             mSliderJointComponents.mImpulseLowerLimit[i] = decimal(0.0);
         }
         bool oldIsUpperLimitViolated = mSliderJointComponents.mIsUpperLimitViolated[i];
-        mSliderJointComponents.mIsUpperLimitViolated[i] = upperLimitError <= 0;
+        mSliderJointComponents.mIsUpperLimitViolated[i] = upperLimitError <= LIMIT_SLOP;
         if (!mSliderJointComponents.mIsUpperLimitViolated[i] || mSliderJointComponents.mIsUpperLimitViolated[i] != oldIsUpperLimitViolated) {
             mSliderJointComponents.mImpulseUpperLimit[i] = decimal(0.0);
         }
@@ -142,13 +143,23 @@ void SolveSliderJointSystem::initBeforeSolve() {
 
             // Compute the bias "b" of the lower limit constraint
             mSliderJointComponents.mBLowerLimit[i] = decimal(0.0);
-            if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
+            if (lowerLimitError > decimal(0.0)) {
+
+                // The limit is not reached yet, it must not be crossed during this step
+                mSliderJointComponents.mBLowerLimit[i] = lowerLimitError / mTimeStep;
+            }
+            else if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
                 mSliderJointComponents.mBLowerLimit[i] = biasFactor * lowerLimitError;
             }
 
             // Compute the bias "b" of the upper limit constraint
             mSliderJointComponents.mBUpperLimit[i] = decimal(0.0);
-            if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
+            if (upperLimitError > decimal(0.0)) {
+
+                // The limit is not reached yet, it must not be crossed during this step
+                mSliderJointComponents.mBUpperLimit[i] = upperLimitError / mTimeStep;
+            }
+            else if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
                 mSliderJointComponents.mBUpperLimit[i] = biasFactor * upperLimitError;
             }
         }
@@ -573,8 +584,8 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
         decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.getLowerLimit(jointEntity);
         decimal upperLimitError = mSliderJointComponents.getUpperLimit(jointEntity) - uDotSliderAxis;
-        mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
-        mSliderJointComponents.mIsUpperLimitViolated[i] = upperLimitError <= 0;
+        const bool isLowerLimitViolated = lowerLimitError <= 0;
+        const bool isUpperLimitViolated = upperLimitError <= 0;
 
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
@@ -600,7 +611,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
             const Vector3& r2CrossSliderAxis = mSliderJointComponents.mR2CrossSliderAxis[i];
             const Vector3& r1PlusUCrossSliderAxis = mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
 
-            if (mSliderJointComponents.mIsLowerLimitViolated[i] || mSliderJointComponents.mIsUpperLimitViolated[i]) {
+            if (isLowerLimitViolated || isUpperLimitViolated) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
                 const decimal body1MassInverse = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
@@ -616,7 +627,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
             const decimal inverseMassBody2 = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
 
             // If the lower limit is violated
-            if (mSliderJointComponents.mIsLowerLimitViolated[i]) {
+            if (isLowerLimitViolated) {
 
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
@@ -655,7 +666,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
             }
 
             // If the upper limit is violated
-            if (mSliderJointComponents.mIsUpperLimitViolated[i]) {
+            if (isUpperLimitViolated) {
 
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
-- 
2.43.0


From d2501f60f54eea301bbc9275a4110347a7bea8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 37/78] fix: SolveHingeJointSystem: correct the anchors with
 the orientations already corrected by the limits (a body pressed on its limit
 swung ever further off its anchor)

---
 src/systems/SolveHingeJointSystem.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 50dc176..0aa8415 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -506,15 +506,6 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
                                                     mHingeJointComponents.mI2[i]);
 
-        // Compute the vector from body center to the anchor point in world-space
-        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
-        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
-
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
-
-
         Vector3& b2CrossA1 = mHingeJointComponents.mB2CrossA1[i];
         Vector3& c2CrossA1 = mHingeJointComponents.mC2CrossA1[i];
 
@@ -667,6 +658,15 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // Compute the vector from body center to the anchor point in world-space (with the orientations corrected by
+        // the limits and rotation constraints)
+        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
+
         // Compute the matrix K=JM^-1J^t (3x3 matrix) for the 3 translation constraints
         const decimal body1InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal body2InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
-- 
2.43.0


From 337815b816f221f2b769150f07a2348dfe1f6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 38/78] fix: destroyRigidBody() must not keep a reference to
 the joints of the body while waking bodies moves the components

---
 src/engine/PhysicsWorld.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index ff151af..8773b9a 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -454,9 +454,9 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     rigidBody->removeAllColliders();
 
     // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // (destroying a joint can awake bodies and therefore move the components in memory)
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From 5544423269137632581b50ac49c6f3b2fe1c5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 39/78] fix: RigidBody::setIsActive(false) must wake the
 sleeping bodies that rest on the body

---
 src/body/RigidBody.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 033b6dd..6c73f87 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1200,6 +1200,9 @@ void RigidBody::setIsActive(bool isActive) {
     }
     else {
 
+        // Awake all the sleeping neighbor bodies of the current one
+        awakeNeighborDisabledBodies();
+
         setIsSleeping(true);
         Body::setIsActive(false);
     }
-- 
2.43.0


From dfbba5db5269f5ad6c9e0cddeba375f79c9ec0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 40/78] fix: PhysicsWorld::enableSleeping(false) must restart
 the sleep timers (a body at rest for a single update could fall asleep)

---
 src/engine/PhysicsWorld.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 8773b9a..6e6c01c 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -964,6 +964,9 @@ void PhysicsWorld::enableSleeping(bool isSleepingEnabled) {
 
             // Wake up the rigid body
             (*it)->setIsSleeping(false);
+
+            // The rest of the bodies is not measured while sleeping is disabled
+            mRigidBodyComponents.setSleepTime((*it)->getEntity(), decimal(0.0));
         }
     }
 
-- 
2.43.0


From b15a42b00665b48391d7aa35ae7d6f4009c7c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 41/78] fix: release single-frame blocks that directly follow
 the frame buffer

---
 src/memory/SingleFrameAllocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/SingleFrameAllocator.cpp b/src/memory/SingleFrameAllocator.cpp
index 00ff8e6..e733e7c 100644
--- a/src/memory/SingleFrameAllocator.cpp
+++ b/src/memory/SingleFrameAllocator.cpp
@@ -98,7 +98,7 @@ void SingleFrameAllocator::release(void* pointer, size_t size) {
 
     // If allocated memory is not within the single frame allocation range
     char* p = static_cast<char*>(pointer);
-    if (p < mMemoryBufferStart || p > mMemoryBufferStart + mTotalSizeBytes) {
+    if (p < mMemoryBufferStart || p >= mMemoryBufferStart + mTotalSizeBytes) {
 
         // Use default deallocation
         mBaseAllocator.release(pointer, size);
-- 
2.43.0


From 46ec2759314ddc192ab75005dfd1b5b6dc11cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 42/78] fix: initialize the size tables of the pool allocators
 only once when threads create them concurrently

---
 include/reactphysics3d/memory/PoolAllocator.h |  3 ---
 src/memory/PoolAllocator.cpp                  | 11 ++++++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/memory/PoolAllocator.h b/include/reactphysics3d/memory/PoolAllocator.h
index 7898545..a593604 100644
--- a/include/reactphysics3d/memory/PoolAllocator.h
+++ b/include/reactphysics3d/memory/PoolAllocator.h
@@ -102,9 +102,6 @@ class PoolAllocator : public MemoryAllocator {
         /// corresponding heap we will use for the allocation.
         static int mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
-        /// True if the mMapSizeToHeapIndex array has already been initialized
-        static bool isMapSizeToHeadIndexInitialized;
-
         /// Mutex
         std::mutex mMutex;
 
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index df04b8e..7f6fadc 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -32,7 +32,6 @@
 using namespace reactphysics3d;
 
 // Initialization of static variables
-bool PoolAllocator::isMapSizeToHeadIndexInitialized = false;
 size_t PoolAllocator::mUnitSizes[NB_HEAPS];
 int PoolAllocator::mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
@@ -51,8 +50,9 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
         mNbTimesAllocateMethodCalled = 0;
 #endif
 
-    // If the mMapSizeToHeapIndex has not been initialized yet
-    if (!isMapSizeToHeadIndexInitialized) {
+    // Initialize the mMapSizeToHeapIndex array the first time an allocator is created (a static local
+    // variable is initialized only once, even if several threads create an allocator at the same time)
+    static const bool isMapSizeToHeapIndexInitialized = [] {
 
         // Initialize the array that contains the sizes of the memory units that will
         // be allocated in each different heap
@@ -74,8 +74,9 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
             }
         }
 
-        isMapSizeToHeadIndexInitialized = true;
-    }
+        return true;
+    }();
+    (void)isMapSizeToHeapIndexInitialized;
 }
 
 // Destructor
-- 
2.43.0


From d8a2c7143dfc9ec30daf47303961d14a81e8e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 43/78] fix: count the physics worlds atomically, worlds of
 different threads share the counter

---
 include/reactphysics3d/engine/PhysicsWorld.h |  3 ++-
 src/engine/PhysicsWorld.cpp                  | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index b1a3bae..d6202a6 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -52,6 +52,7 @@
 #include <reactphysics3d/engine/Islands.h>
 #include <reactphysics3d/utils/DebugRenderer.h>
 #include <sstream>
+#include <atomic>
 
 /// Namespace ReactPhysics3D
 namespace reactphysics3d {
@@ -229,7 +230,7 @@ class PhysicsWorld {
 #endif
 
         /// Total number of worlds
-        static uint32 mNbWorlds;
+        static std::atomic<uint32> mNbWorlds;
 
         /// All the islands of bodies of the current frame
         Islands mIslands;
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 6e6c01c..9088382 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -43,7 +43,7 @@ using namespace std;
 
 // Static initializations
 
-uint32 PhysicsWorld::mNbWorlds = 0;
+std::atomic<uint32> PhysicsWorld::mNbWorlds(0);
 
 // Constructor
 /**
@@ -78,14 +78,17 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
                 mSleepLinearVelocity(mConfig.defaultSleepLinearVelocity),
                 mSleepAngularVelocity(mConfig.defaultSleepAngularVelocity), mTimeBeforeSleep(mConfig.defaultTimeBeforeSleep) {
 
+    // Worlds can be created by several threads (each with its own PhysicsCommon)
+    const uint32 worldIndex = mNbWorlds++;
+
     // Automatically generate a name for the world
     if (mName == "") {
 
         std::stringstream ss;
         ss << "world";
 
-        if (mNbWorlds > 0) {
-            ss << mNbWorlds;
+        if (worldIndex > 0) {
+            ss << worldIndex;
         }
 
         mName = ss.str();
@@ -105,8 +108,6 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
 
 #endif
 
-    mNbWorlds++;
-
     mTransformComponents.init();
     mCollidersComponents.init();
     mBodyComponents.init();
-- 
2.43.0


From 8e79f32728e3142eeec6e3a976f951ad7ed7cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 44/78] fix: collision queries do not change the temporal
 coherence data of the overlapping pairs

---
 .../systems/CollisionDetectionSystem.h        |  6 +++++-
 src/systems/CollisionDetectionSystem.cpp      | 21 ++++++++++---------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..3269e79 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -169,6 +169,10 @@ class CollisionDetectionSystem {
         /// Reference to the half-edge structure of the triangle polyhedron
         HalfEdgeStructure& mTriangleHalfEdgeStructure;
 
+        /// Last frame collision info used by the collision queries. It is never valid so that a query neither
+        /// uses nor changes the temporal coherence data that the simulation keeps in the overlapping pairs
+        LastFrameCollisionInfo mQueryLastFrameCollisionInfo;
+
         /// Allocated size for a triangle shape
         static const size_t mTriangleShapeAllocatedSize;
 
@@ -233,7 +237,7 @@ class CollisionDetectionSystem {
 
         /// Compute the concave vs convex middle-phase algorithm for a given pair of bodies
         void computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator,
-                                               NarrowPhaseInput& narrowPhaseInput, bool reportContacts);
+                                               NarrowPhaseInput& narrowPhaseInput, bool reportContacts, bool isWorldQuery);
 
         /// Swap the previous and current contacts arrays
         void swapPreviousAndCurrentContacts();
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 7576c06..4fe8fb1 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -367,7 +367,9 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
     narrowPhaseInput.reserveMemory();
 
     // Remove the obsolete last frame collision infos and mark all the others as obsolete
-    mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
+    if (!isWorldQuery) {
+        mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
+    }
 
     const uint32 nbEnabledColliderComponents = mCollidersComponents.getNbEnabledComponents();
 
@@ -426,7 +428,7 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
                 narrowPhaseInput.addNarrowPhaseTest(overlappingPair.pairID, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                     mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                     mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                    algorithmType, reportContacts, &overlappingPair.lastFrameCollisionInfo,
+                                                    algorithmType, reportContacts, isWorldQuery ? &mQueryLastFrameCollisionInfo : &overlappingPair.lastFrameCollisionInfo,
                                                     mMemoryManager.getSingleFrameAllocator());
             }
         }
@@ -475,7 +477,7 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
             // If it is not a world query, we make sure that the two bodies are enabled
             if (isWorldQuery || (!isWorldQuery && (isBody1Enabled || isBody2Enabled))) {
 
-                computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, needToReportContacts);
+                computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, needToReportContacts, isWorldQuery);
 
             }
         }
@@ -491,9 +493,6 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     // Reserve memory for the narrow-phase input using cached capacity from previous frame
     narrowPhaseInput.reserveMemory();
 
-    // Remove the obsolete last frame collision infos and mark all the others as obsolete
-    mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
-
     // For each possible convex vs convex pair of bodies
     const uint64 nbConvexPairs = convexPairs.size();
     for (uint64 p=0; p < nbConvexPairs; p++) {
@@ -526,7 +525,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, isContactReported, &pair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, isContactReported, &mQueryLastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -541,12 +540,13 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(pair.collider2) != -1);
         assert(mCollidersComponents.getBroadPhaseId(pair.collider1) != mCollidersComponents.getBroadPhaseId(pair.collider2));
 
-        computeConvexVsConcaveMiddlePhase(pair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(pair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts, true);
     }
 }
 
 // Compute the concave vs convex middle-phase algorithm for a given pair of bodies
-void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator, NarrowPhaseInput& narrowPhaseInput, bool reportContacts) {
+void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPairs::ConcaveOverlappingPair& overlappingPair, MemoryAllocator& allocator, NarrowPhaseInput& narrowPhaseInput, bool reportContacts,
+                                                                 bool isWorldQuery) {
 
     RP3D_PROFILE("CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase()", mProfiler);
 
@@ -632,7 +632,8 @@ void CollisionDetectionSystem::computeConvexVsConcaveMiddlePhase(OverlappingPair
         }
 
         // Add a collision info for the two collision shapes into the overlapping pair (if not present yet)
-        LastFrameCollisionInfo* lastFrameInfo = overlappingPair.addLastFrameInfoIfNecessary(shape1->getId(), shape2->getId());
+        LastFrameCollisionInfo* lastFrameInfo = isWorldQuery ? &mQueryLastFrameCollisionInfo :
+                                                overlappingPair.addLastFrameInfoIfNecessary(shape1->getId(), shape2->getId());
 
         // Create a narrow phase info for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(overlappingPair.pairID, collider1, collider2, shape1, shape2,
-- 
2.43.0


From 5e2d397571b3eb90cfa4afd6693b640c50b94813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 45/78] fix: keep the edge map of QuickHull in sync when
 merging coplanar faces moves the end vertex of an edge

---
 .../utils/quickhull/QHHalfEdgeStructure.h     |  3 +++
 src/utils/quickhull/QHHalfEdgeStructure.cpp   | 19 +++++++++++++++++++
 src/utils/quickhull/QuickHull.cpp             |  3 +--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
index a7a86b0..ac3d5cd 100644
--- a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
+++ b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
@@ -324,6 +324,9 @@ class QHHalfEdgeStructure {
         /// Remove an half-edge
         void removeHalfEdge(Edge* edge);
 
+        /// Change the end vertex of an half-edge (and the start vertex of its twin edge)
+        void changeEdgeEndVertex(Edge* edge, Vertex* newEndVertex);
+
         /// Remove a vertex
         void removeVertex(Vertex* vertex);
 
diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 124f28d..5a1a694 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -273,6 +273,25 @@ void QHHalfEdgeStructure::removeHalfEdge(Edge* edge) {
     mNbHalfEdges--;
 }
 
+// Change the end vertex of an half-edge (and the start vertex of its twin edge)
+void QHHalfEdgeStructure::changeEdgeEndVertex(Edge* edge, Vertex* newEndVertex) {
+
+    assert(edge->twinEdge != nullptr);
+
+    // Remove the half-edges from the map because their keys are going to change
+    mMapVerticesToEdge.remove(EdgeVertices(edge->startVertex, edge->endVertex));
+    mMapVerticesToEdge.remove(EdgeVertices(edge->endVertex, edge->startVertex));
+
+    edge->endVertex = newEndVertex;
+    edge->twinEdge->startVertex = newEndVertex;
+
+    // Add the half-edges into the map with their new keys
+    assert(!mMapVerticesToEdge.containsKey(EdgeVertices(edge->startVertex, newEndVertex)));
+    assert(!mMapVerticesToEdge.containsKey(EdgeVertices(newEndVertex, edge->startVertex)));
+    mMapVerticesToEdge.add(Pair<EdgeVertices, Edge*>(EdgeVertices(edge->startVertex, newEndVertex), edge));
+    mMapVerticesToEdge.add(Pair<EdgeVertices, Edge*>(EdgeVertices(newEndVertex, edge->startVertex), edge->twinEdge));
+}
+
 // Remove a face and all its edges
 void QHHalfEdgeStructure::removeFace(Face* face) {
 
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index f45a55f..b51ad7a 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -729,11 +729,10 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
         QHHalfEdgeStructure::Vertex* vertexToRemove = inEdge->endVertex;
         QHHalfEdgeStructure::Edge* outEdgeToRemove = inEdge->nextFaceEdge;
 
-        inEdge->twinEdge->startVertex = outEdgeToRemove->endVertex;
         outEdgeToRemove->twinEdge->previousFaceEdge->nextFaceEdge = inEdge->twinEdge;
         inEdge->twinEdge->previousFaceEdge = outEdgeToRemove->twinEdge->previousFaceEdge;
 
-        inEdge->endVertex = outEdgeToRemove->endVertex;
+        convexHull.changeEdgeEndVertex(inEdge, outEdgeToRemove->endVertex);
         inEdge->nextFaceEdge = outEdgeToRemove->nextFaceEdge;
         inEdge->nextFaceEdge->previousFaceEdge = inEdge;
 
-- 
2.43.0


From e6f7bc6f064978ed64c5da487da1b55242dd83c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 46/78] fix: compute the normal of a QuickHull face relative to
 the face, so that small faces far from the origin keep their precision

---
 .../utils/quickhull/QHHalfEdgeStructure.h             | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
index ac3d5cd..98e8b5b 100644
--- a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
+++ b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
@@ -154,10 +154,13 @@ class QHHalfEdgeStructure {
                 // For each vertex of the face
                 const QHHalfEdgeStructure::Edge* firstFaceEdge = edge;
                 const QHHalfEdgeStructure::Edge* faceEdge = firstFaceEdge;
+
+                // The normal is computed relatively to a vertex of the face (for better precision when the face is far from the origin)
+                const Vector3 origin = points[firstFaceEdge->startVertex->externalIndex];
                 do {
 
-                    const Vector3 v1 = points[faceEdge->startVertex->externalIndex];
-                    const Vector3 v2 = points[faceEdge->endVertex->externalIndex];
+                    const Vector3 v1 = points[faceEdge->startVertex->externalIndex] - origin;
+                    const Vector3 v2 = points[faceEdge->endVertex->externalIndex] - origin;
                     centroid += v1;
                     normal += Vector3((v1.y - v2.y) * (v1.z + v2.z),
                                       (v1.z - v2.z) * (v1.x + v2.x),
@@ -171,10 +174,10 @@ class QHHalfEdgeStructure {
 
                 assert(nbVertices > 0);
 
-                centroid = centroid / nbVertices;
+                centroid = origin + centroid / nbVertices;
                 const decimal normalLength = normal.length();
                 assert(normalLength > 0);
-                normal = normal / normalLength;
+                normal = normal * (decimal(1.0) / normalLength);
                 area = normalLength * decimal(0.5);
             }
 
-- 
2.43.0


From 8ce78ef4224e03a224ddfdb2c1e966795a98a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 47/78] fix: QuickHull rejects an empty vertex array with an
 error instead of dividing by zero

---
 src/utils/quickhull/QuickHull.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index b51ad7a..ea77cd2 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -52,6 +52,13 @@ bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexA
     Array<Vector3> points(allocator);
     extractPoints(vertexArray, points);
 
+    // If there are no vertices in the vertex array
+    if (points.size() == 0) {
+
+       errors.push_back(Message("The VertexArray must contain at least 4 vertices to create a convex mesh"));
+       return false;
+    }
+
     // Remove the duplicated vertices from the points
     removeDuplicatedVertices(points, allocator);
 
-- 
2.43.0


From 9b9c09eafc7b6d07aec1e6c8439d310dfd837357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 48/78] fix: QuickHull accepts small faces in builds with
 assertions

---
 src/utils/quickhull/QHHalfEdgeStructure.cpp | 2 +-
 src/utils/quickhull/QuickHull.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 5a1a694..d883ea0 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -359,7 +359,7 @@ bool QHHalfEdgeStructure::isValid() const {
        isValid &= (face->previousFace == nullptr || face->previousFace == previousFace);
        isValid &= (previousFace == nullptr || previousFace->nextFace == face);
        isValid &= face->isValid();
-       isValid &= face->area > 0.00001;
+       isValid &= face->area > 0;
        nbFaces++;
     };
     isValid &= nbFaces > 0 || mFaces == nullptr;
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index ea77cd2..162db61 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -155,7 +155,7 @@ void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convex
     // For each face of the convex hull
     for (const QHHalfEdgeStructure::Face* face = convexHull.getFaces(); face != nullptr; face = face->nextFace) {
 
-        assert(face->area > 0.00001);
+        assert(face->area > 0);
 
         PolygonVertexArray::PolygonFace polygonFace;
         polygonFace.nbVertices = 0;
-- 
2.43.0


From d02ce6098ad35674445954fb99f39455978cc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 49/78] fix: ConvexMesh rejects invalid indices and non-closed
 polyhedra instead of reading out of bounds

---
 src/collision/ConvexMesh.cpp | 52 ++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..6f1c21b 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -52,6 +52,14 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
 
     bool isValid = true;
 
+    // If there are no vertices or no faces
+    if (polygonVertexArray.getNbVertices() == 0 || polygonVertexArray.getNbFaces() == 0) {
+
+        errors.push_back(Message(polygonVertexArray.getNbVertices() == 0 ? "The mesh does not have any vertices" :
+                                                                           "The mesh does not have any faces"));
+        return false;
+    }
+
     // Reserve memory for the vertices, faces and edges
     mVertices.reserve(polygonVertexArray.getNbVertices());
     mFacesNormals.reserve(polygonVertexArray.getNbFaces());
@@ -64,6 +72,9 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    // If the half-edge structure cannot be created, we cannot compute anything else
+    if (!isValid) return false;
+
     // Compute the faces normals
     isValid &= computeFacesNormals(errors);
 
@@ -126,6 +137,9 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
     uint32 nbEdges = 0;
 
+    // Half-edges (start vertex, end vertex) of all the faces
+    Set<HalfEdgeStructure::VerticesPair> halfEdges(mMemoryAllocator);
+
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
     for (uint32 f=0; f < nbFaces; f++) {
@@ -154,6 +168,27 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
                      "Error when creating a ConvexMesh: Mesh has a face with less than three vertices.",  __FILE__, __LINE__);
         }
 
+        // For each half-edge of the face
+        for (uint32 v=0; v < faceVertices.size(); v++) {
+
+            const HalfEdgeStructure::VerticesPair halfEdge(faceVertices[v], faceVertices[v == faceVertices.size() - 1 ? 0 : v + 1]);
+
+            // If the vertex does not exist
+            if (halfEdge.first >= nbVertices) {
+
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has a vertex with index " + std::to_string(halfEdge.first) +
+                                         " but the PolygonVertexArray only has " + std::to_string(nbVertices) + " vertices"));
+                isValid = false;
+            }
+
+            // If the half-edge is already part of a face
+            if (!halfEdges.add(halfEdge)) {
+
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has an edge that is used twice in the same direction"));
+                isValid = false;
+            }
+        }
+
         // Addd the face into the half-edge structure
         mHalfEdgeStructure.addFace(faceVertices);
     }
@@ -172,11 +207,24 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    // Check that the mesh is closed (each half-edge must have a twin half-edge)
+    for (auto it = halfEdges.begin(); it != halfEdges.end(); ++it) {
+
+        const HalfEdgeStructure::VerticesPair twinEdge(it->second, it->first);
+
+        if (it->first == it->second || !halfEdges.contains(twinEdge)) {
+
+            errors.push_back(Message("The convex mesh is not closed: the edge between the vertices " + std::to_string(it->first) + " and " +
+                                     std::to_string(it->second) + " is not shared by two faces"));
+            isValid = false;
+        }
+    }
+
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From 989ea44676d8db784620e3ebfac9db61b92cf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 50/78] fix: createHeightField() allocates the size of a
 HeightField object, the size that is released

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..b030554 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From 0ace76ef71502f74e4bd71af4be874be03c282b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 51/78] fix: TriangleMesh also removes the first vertex when it
 is not used by a triangle

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..d71d2de 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -217,7 +217,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 i=mVertices.size(); i-- > 0; ) {
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
-- 
2.43.0


From 96c15d7c8865f1fc7e8bbce0c9f0474617ad960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 52/78] fix: TriangleMesh does not assert when all its vertices
 are at the origin

---
 src/collision/TriangleMesh.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index d71d2de..9b3a958 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,7 +92,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
+    assert(mEpsilon >= 0);
 
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
@@ -135,7 +135,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             const Vector3 v2 = triangleVertexArray.getVertex(vertexIndices[1]);
             const Vector3 v3 = triangleVertexArray.getVertex(vertexIndices[2]);
             const Vector3 faceNormal = (v3 - v1).cross(v2 - v1);
-            const bool isFaceZeroArea = faceNormal.lengthSquare() < epsilonSquare;
+            const bool isFaceZeroArea = faceNormal.lengthSquare() <= epsilonSquare;
             if (isFaceZeroArea) {
 
                 // Add a warning message for the user
@@ -148,8 +148,8 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             edgesLengthsSquare[0] = (v2 - v1).lengthSquare();
             edgesLengthsSquare[1] = (v3 - v2).lengthSquare();
             edgesLengthsSquare[2] = (v1 - v3).lengthSquare();
-            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] < epsilonSquare || edgesLengthsSquare[1] < epsilonSquare ||
-                                         edgesLengthsSquare[2] < epsilonSquare;
+            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] <= epsilonSquare || edgesLengthsSquare[1] <= epsilonSquare ||
+                                         edgesLengthsSquare[2] <= epsilonSquare;
             if (hasFaceZeroLengthEdge) {
 
                 // Add a warning message for the user
-- 
2.43.0


From 0dc52829d2a6a725231cf6c2f9daf4b6a3f37a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 53/78] fix: TriangleMesh clamps the cosine of the corner
 angles before calling acos()

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 9b3a958..58ca470 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -306,7 +306,7 @@ void TriangleMesh::computeVerticesNormals() {
             assert(lengthATimesLengthB * lengthATimesLengthB >= mEpsilon * mEpsilon);
 
             decimal cosA = dotProduct / lengthATimesLengthB;
-            cosA = std::min(std::max(cosA, decimal(0.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
+            cosA = std::min(std::max(cosA, decimal(-1.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
             const decimal angle = std::acos(cosA);
             assert(angle >= decimal(0.0));
 
-- 
2.43.0


From 6780051a8658fa826dc21c4240c583f83fde6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 54/78] fix: TriangleMesh gives a valid normal to the vertices
 whose triangle normals cancel

---
 src/collision/TriangleMesh.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 58ca470..42783dd 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -324,7 +324,21 @@ void TriangleMesh::computeVerticesNormals() {
     // Normalize the computed vertices normals
     for (uint32 v=0; v < mVertices.size(); v++) {
 
-        assert(mVerticesNormals[v].lengthSquare() >= mEpsilon * mEpsilon);
+        // If the normals of the triangles at this vertex cancel each other (two-sided mesh for instance)
+        if (mVerticesNormals[v].lengthSquare() < mEpsilon * mEpsilon) {
+
+            // Use the normal of one of those triangles
+            for (uint32 i=0; i < mTriangles.size(); i++) {
+
+                if (mTriangles[i] == v) {
+
+                    const uint32 f = i - i % 3;
+                    const Vector3& v1 = mVertices[mTriangles[f]];
+                    mVerticesNormals[v] = (mVertices[mTriangles[f + 1]] - v1).cross(mVertices[mTriangles[f + 2]] - v1);
+                    break;
+                }
+            }
+        }
 
         // Normalize the normal
         mVerticesNormals[v].normalize();
-- 
2.43.0


From bcda6f22d159b5364e770f543f82a62999a0e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 55/78] fix: AABB::applyScale() keeps the minimum below the
 maximum when a scale factor is negative

---
 include/reactphysics3d/collision/shapes/AABB.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index a7cfaf0..c25239f 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -216,8 +216,13 @@ RP3D_FORCE_INLINE bool AABB::contains(const Vector3& point, decimal epsilon) con
 
 // Apply a scale factor to the AABB
 RP3D_FORCE_INLINE void AABB::applyScale(const Vector3& scale) {
-    mMinCoordinates = mMinCoordinates * scale;
-    mMaxCoordinates = mMaxCoordinates * scale;
+
+    const Vector3 scaledMin = mMinCoordinates * scale;
+    const Vector3 scaledMax = mMaxCoordinates * scale;
+
+    // Note that a negative scale factor swaps the minimum and the maximum coordinates
+    mMinCoordinates = Vector3::min(scaledMin, scaledMax);
+    mMaxCoordinates = Vector3::max(scaledMin, scaledMax);
 }
 
 // Merge the AABB in parameter with the current one
-- 
2.43.0


From 851fcb464fde8d614cc52c4c62fe954e51fbde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 56/78] fix: two-sided ray casting does not hit a triangle
 beyond its corners when the ray crosses the line of an edge

---
 src/collision/shapes/TriangleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 349ef87..448e377 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -179,7 +179,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (w > decimal(0.0)) return false;
     }
     else if (mRaycastTestType == TriangleRaycastSide::FRONT_AND_BACK) {
-        if (!sameSign(u, w)) return false;
+        if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
     // If the line PQ is in the triangle plane (case where u=v=w=0)
-- 
2.43.0


From fc288152edfcbdddeb6f353025bbcf623222b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 57/78] fix: HeightFieldShape ray casting and overlap queries
 take the scale into account (normal, mirrored scales)

---
 src/collision/shapes/HeightFieldShape.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/collision/shapes/HeightFieldShape.cpp b/src/collision/shapes/HeightFieldShape.cpp
index 2765732..47c0cab 100644
--- a/src/collision/shapes/HeightFieldShape.cpp
+++ b/src/collision/shapes/HeightFieldShape.cpp
@@ -64,8 +64,8 @@ void HeightFieldShape::computeOverlappingTriangles(const AABB& localAABB, Array<
     RP3D_PROFILE("HeightFieldShape::computeOverlappingTriangles()", mProfiler);
 
    // Compute the non-scaled AABB
-   Vector3 inverseScale(decimal(1.0) / mScale.x, decimal(1.0) / mScale.y, decimal(1.0) / mScale.z);
-   AABB aabb(localAABB.getMin() * inverseScale, localAABB.getMax() * inverseScale);
+   AABB aabb(localAABB);
+   aabb.applyScale(Vector3(decimal(1.0) / mScale.x, decimal(1.0) / mScale.y, decimal(1.0) / mScale.z));
 
    mHeightField->computeOverlappingTriangles(aabb, triangleVertices, triangleVerticesNormals, shapeIds, mScale);
 }
@@ -82,11 +82,20 @@ bool HeightFieldShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collide
     const Vector3 inverseScale(decimal(1.0) / mScale.x, decimal(1.0) / mScale.y, decimal(1.0) / mScale.z);
     Ray scaledRay(ray.point1 * inverseScale, ray.point2 * inverseScale, ray.maxFraction);
 
-    if (mHeightField->raycast(scaledRay, raycastInfo, collider, getRaycastTestType(), allocator)) {
+    // A mirrored height-field (scale with an odd number of negative factors) has its front and back sides swapped
+    TriangleRaycastSide testSide = getRaycastTestType();
+    if (mScale.x * mScale.y * mScale.z < decimal(0.0) && testSide != TriangleRaycastSide::FRONT_AND_BACK) {
+        testSide = testSide == TriangleRaycastSide::FRONT ? TriangleRaycastSide::BACK : TriangleRaycastSide::FRONT;
+    }
+
+    if (mHeightField->raycast(scaledRay, raycastInfo, collider, testSide, allocator)) {
 
         // Scale back the contact point because we used a ray scale with inverse height-field scale
         raycastInfo.worldPoint = raycastInfo.worldPoint * mScale;
 
+        // Convert the normal of the non-scaled height-field into the normal of the scaled height-field
+        raycastInfo.worldNormal = (raycastInfo.worldNormal * inverseScale).getUnit();
+
         return true;
     }
 
-- 
2.43.0


From b7a219f75ac1c6de44f54e733a1b9b7ec1ed2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 58/78] fix: ray casting along the border of a height field
 does not loop forever

---
 src/collision/HeightField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 4ee2700..ed968c3 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -305,7 +305,8 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
 
            if (stepI == 0 && stepJ == 0) break;
 
-           if (tMaxI < tMaxJ) {
+           // Move to the next cell (never along an axis that is orthogonal to the ray)
+           if (stepJ == 0 || (stepI != 0 && tMaxI < tMaxJ)) {
                 tMaxI += tDeltaI;
                 i += stepI;
             }
-- 
2.43.0


From f774f8c1d69d4497eb28d16cec592df0a939c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 59/78] fix: HeightField accepts large height values in builds
 with assertions

---
 src/collision/HeightField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index ed968c3..ce7a10b 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -404,7 +404,7 @@ Vector3 HeightField::getVertexAt(uint32 x, uint32 y) const {
 
     const Vector3 vertex = Vector3(-mWidth * decimal(0.5) + x, mHeightOrigin + height, -mLength * decimal(0.5) + y);
 
-    assert(mBounds.contains(vertex, decimal(0.0001)));
+    assert(mBounds.contains(vertex, decimal(0.0001) + decimal(4.0) * MACHINE_EPSILON * (std::abs(mMinHeight) + std::abs(mMaxHeight))));
 
     return vertex;
 }
-- 
2.43.0


From e17ef1a11945e55b7ed084197bd954257de6d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 60/78] fix: release the component tables with the size they
 were allocated with

---
 src/components/BallAndSocketJointComponents.cpp | 2 +-
 src/components/BodyComponents.cpp               | 2 +-
 src/components/ColliderComponents.cpp           | 2 +-
 src/components/Components.cpp                   | 2 +-
 src/components/FixedJointComponents.cpp         | 2 +-
 src/components/HingeJointComponents.cpp         | 2 +-
 src/components/JointComponents.cpp              | 2 +-
 src/components/RigidBodyComponents.cpp          | 2 +-
 src/components/SliderJointComponents.cpp        | 2 +-
 src/components/TransformComponents.cpp          | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/components/BallAndSocketJointComponents.cpp b/src/components/BallAndSocketJointComponents.cpp
index 0850edb..8261bdc 100644
--- a/src/components/BallAndSocketJointComponents.cpp
+++ b/src/components/BallAndSocketJointComponents.cpp
@@ -122,7 +122,7 @@ void BallAndSocketJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newConeLimitACrossB, mConeLimitACrossB, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/BodyComponents.cpp b/src/components/BodyComponents.cpp
index 8aae023..2f38a0a 100644
--- a/src/components/BodyComponents.cpp
+++ b/src/components/BodyComponents.cpp
@@ -82,7 +82,7 @@ void BodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newHasSimulationCollider, mHasSimulationCollider, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/ColliderComponents.cpp b/src/components/ColliderComponents.cpp
index 7b0fefe..5d61fe8 100644
--- a/src/components/ColliderComponents.cpp
+++ b/src/components/ColliderComponents.cpp
@@ -111,7 +111,7 @@ void ColliderComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(materials, mMaterials, mNbComponents * sizeof(Material));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/Components.cpp b/src/components/Components.cpp
index a920a78..691a324 100644
--- a/src/components/Components.cpp
+++ b/src/components/Components.cpp
@@ -50,7 +50,7 @@ Components::~Components() {
         }
 
         // Size for the data of a single component (in bytes)
-        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize;
+        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize;
 
         // Release the allocated memory
         mMemoryAllocator.release(mBuffer, totalSizeBytes);
diff --git a/src/components/FixedJointComponents.cpp b/src/components/FixedJointComponents.cpp
index 18ddf65..06b4ed0 100644
--- a/src/components/FixedJointComponents.cpp
+++ b/src/components/FixedJointComponents.cpp
@@ -111,7 +111,7 @@ void FixedJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newInitOrientationDifferenceInv, mInitOrientationDifferenceInv, mNbComponents * sizeof(Quaternion));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 2bd3247..287f136 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -176,7 +176,7 @@ void HingeJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newMaxMotorTorque, mMaxMotorTorque, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/JointComponents.cpp b/src/components/JointComponents.cpp
index 571d567..15716e5 100644
--- a/src/components/JointComponents.cpp
+++ b/src/components/JointComponents.cpp
@@ -87,7 +87,7 @@ void JointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsAlreadyInIsland, mIsAlreadyInIsland, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/RigidBodyComponents.cpp b/src/components/RigidBodyComponents.cpp
index 6b5a065..bee0d04 100644
--- a/src/components/RigidBodyComponents.cpp
+++ b/src/components/RigidBodyComponents.cpp
@@ -165,7 +165,7 @@ void RigidBodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newAngularLockAxisFactors, mAngularLockAxisFactors, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..3742a09 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -193,7 +193,7 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/TransformComponents.cpp b/src/components/TransformComponents.cpp
index eb59fa2..a3ace0d 100644
--- a/src/components/TransformComponents.cpp
+++ b/src/components/TransformComponents.cpp
@@ -70,7 +70,7 @@ void TransformComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newEntities, mBodies, mNbComponents * sizeof(Entity));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
-- 
2.43.0


From 71e9d5afce2b3b3badea13ce031235634abaa7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 61/78] fix: release the last frame collision infos with the
 size they were allocated with

---
 include/reactphysics3d/engine/OverlappingPairs.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index a18c397..fd64a60 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -220,8 +220,11 @@ class OverlappingPairs {
                         // Call the destructor
                         it->second->LastFrameCollisionInfo::~LastFrameCollisionInfo();
 
+                        // Make sure capacity is an integral multiple of alignment
+                        const size_t allocatedMemory = std::ceil(sizeof(LastFrameCollisionInfo) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
+
                         // Release memory
-                        mPoolAllocator->release(it->second, sizeof(LastFrameCollisionInfo));
+                        mPoolAllocator->release(it->second, allocatedMemory);
                     }
 
                     lastFrameCollisionInfos.clear();
-- 
2.43.0


From 37298b9a36fa0fa61d141f69c80719bb0576e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 62/78] fix: DebugRenderer arrays can be read when there is
 nothing to draw

---
 include/reactphysics3d/utils/DebugRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reactphysics3d/utils/DebugRenderer.h b/include/reactphysics3d/utils/DebugRenderer.h
index 779c747..012af25 100644
--- a/include/reactphysics3d/utils/DebugRenderer.h
+++ b/include/reactphysics3d/utils/DebugRenderer.h
@@ -288,10 +288,10 @@ RP3D_FORCE_INLINE const Array<DebugRenderer::DebugLine>& DebugRenderer::getLines
 
 // Return a pointer to the array of lines
 /**
- * @return A pointer to the first element of the lines array to draw
+ * @return A pointer to the first element of the lines array to draw (nullptr if there are no lines)
  */
 RP3D_FORCE_INLINE const DebugRenderer::DebugLine* DebugRenderer::getLinesArray() const {
-	return &(mLines[0]);
+	return mLines.size() > 0 ? &(mLines[0]) : nullptr;
 }
 
 // Return the number of triangles
@@ -312,10 +312,10 @@ RP3D_FORCE_INLINE const Array<DebugRenderer::DebugTriangle>& DebugRenderer::getT
 
 // Return a pointer to the array of triangles
 /**
- * @return A pointer to the first element of the triangles array to draw
+ * @return A pointer to the first element of the triangles array to draw (nullptr if there are no triangles)
  */
 RP3D_FORCE_INLINE const DebugRenderer::DebugTriangle* DebugRenderer::getTrianglesArray() const {
-	return &(mTriangles[0]);
+	return mTriangles.size() > 0 ? &(mTriangles[0]) : nullptr;
 }
 
 // Return whether a debug item is displayed or not
-- 
2.43.0


From 85d32e0ec162239d4660cfc9ad45563a5cde48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 63/78] fix: do not draw spheres and capsules when only shape
 normals are displayed

---
 src/utils/DebugRenderer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index cc32900..a7f6773 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -443,14 +443,18 @@ void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
         }
         case CollisionShapeName::SPHERE:
         {
-            const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CAPSULE:
         {
-            const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CONVEX_MESH:
-- 
2.43.0


From 2d728f62c066543979fd58917e169a8bdb4415c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 64/78] fix: draw the faces of convex meshes as fans of
 triangles

---
 src/utils/DebugRenderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index a7f6773..de6dfe5 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -314,7 +314,7 @@ void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshS
         const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
         for (uint32 v = 2; v < nbFaceVertices; v++) {
 
-            uint32 v1Index = face.faceVertices[v - 2];
+            uint32 v1Index = face.faceVertices[0];
             uint32 v2Index = face.faceVertices[v - 1];
             uint32 v3Index = face.faceVertices[v];
 
-- 
2.43.0


From a8d69d519229e8383320c16ff8d567e7949da553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 65/78] fix: update the broad-phase when the shape of a static
 or sleeping body is resized

---
 src/collision/Collider.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 8a3fdce..5e07fac 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -213,6 +213,12 @@ unsigned short Collider::getCollideWithMaskBits() const {
 // Notify the collider that the size of the collision shape has been changed by the user
 void Collider::setHasCollisionShapeChangedSize(bool hasCollisionShapeChangedSize) {
     mBody->mWorld.mCollidersComponents.setHasCollisionShapeChangedSize(mEntity, hasCollisionShapeChangedSize);
+
+    // Update the broad-phase AABB of the collider (the colliders of static and sleeping bodies are not
+    // updated during the next simulation step)
+    if (hasCollisionShapeChangedSize) {
+        mBody->mWorld.mCollisionDetection.updateCollider(mEntity);
+    }
 }
 
 // Set a new material for this rigid body
-- 
2.43.0


From 2e397b14a3d5d785ef33a6f6e309854fe3dc0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 66/78] fix: give the messages of unnamed worlds the name of
 their world

---
 src/engine/PhysicsWorld.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 9088382..f1881cf 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -92,6 +92,7 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
         }
 
         mName = ss.str();
+        mConfig.worldName = mName;
     }
 
 #ifdef IS_RP3D_PROFILING_ENABLED
-- 
2.43.0


From 330cdbf43d2ef9ba4f3cd4cb60a9f85ca4233081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 67/78] fix: log the creation and the destruction of a physics
 world once

---
 src/engine/PhysicsWorld.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index f1881cf..f525362 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -124,17 +124,11 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::World,
              "Physics World: Initial world settings: " + worldSettings.to_string(),  __FILE__, __LINE__);
 
-    RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::World,
-             "Physics World: Physics world " + mName + " has been created",  __FILE__, __LINE__);
-
 }
 
 // Destructor
 PhysicsWorld::~PhysicsWorld() {
 
-    RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::World,
-             "Physics World: Physics world " + mName + " has been destroyed",  __FILE__, __LINE__);
-
 #ifdef IS_RP3D_PROFILING_ENABLED
 
 
-- 
2.43.0


From d7f81a5e1e5796d2320cf88b7ebd6dd467230943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 68/78] fix: do not keep a destroyed default logger as the
 current logger

---
 src/engine/PhysicsCommon.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index b030554..da0f054 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -799,6 +799,11 @@ void PhysicsCommon::destroyDefaultLogger(DefaultLogger* logger) {
  */
 void PhysicsCommon::deleteDefaultLogger(DefaultLogger* logger) {
 
+   // Do not keep on logging into a logger that does not exist anymore
+   if (mLogger == logger) {
+       mLogger = nullptr;
+   }
+
    // Call the destructor of the logger
    logger->~DefaultLogger();
 
-- 
2.43.0


From f978c30827ca2a34858c9f40a1368cd59e060b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 69/78] fix: clip segments and polygons independently of their
 size and of the length of the plane normals

---
 .../mathematics/mathematics_functions.h       | 41 ++++---------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 1c1aca7..6e56c51 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -289,14 +289,8 @@ RP3D_FORCE_INLINE Array<Vector3> clipSegmentWithPlanes(const Vector3& segA, cons
             if (v1DotN < decimal(0.0)) {
 
                 // The second point we keep is the intersection between the segment v1, v2 and the clipping plane
-                decimal t = computePlaneSegmentIntersection(v1, v2, planesNormals[p].dot(planesPoints[p]), planesNormals[p]);
-
-                if (t >= decimal(0) && t <= decimal(1.0)) {
-                    outputVertices.add(v1 + t * (v2 - v1));
-                }
-                else {
-                    outputVertices.add(v2);
-                }
+                const decimal t = v1DotN / (v1DotN - v2DotN);
+                outputVertices.add(v1 + t * (v2 - v1));
             }
             else {
                 outputVertices.add(v1);
@@ -313,18 +307,15 @@ RP3D_FORCE_INLINE Array<Vector3> clipSegmentWithPlanes(const Vector3& segA, cons
                 outputVertices.add(v1);
 
                 // The first point we keep is the intersection between the segment v1, v2 and the clipping plane
-                decimal t = computePlaneSegmentIntersection(v1, v2, -planesNormals[p].dot(planesPoints[p]), -planesNormals[p]);
-
-                if (t >= decimal(0.0) && t <= decimal(1.0)) {
-                    outputVertices.add(v1 + t * (v2 - v1));
-                }
+                const decimal t = v1DotN / (v1DotN - v2DotN);
+                outputVertices.add(v1 + t * (v2 - v1));
             }
         }
 
         inputVertices = outputVertices;
     }
 
-    return outputVertices;
+    return inputVertices;
 }
 
 // Clip a polygon against a single plane and return the clipped polygon vertices
@@ -338,8 +329,6 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
 
     uint32 vStartIndex = nbInputVertices - 1;
 
-    const decimal planeNormalDotPlanePoint = planeNormal.dot(planePoint);
-
     decimal vStartDotN = (polygonVertices[vStartIndex] - planePoint).dot(planeNormal);
 
     // For each edge of the polygon
@@ -357,14 +346,8 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
             if (vStartDotN < decimal(0.0)) {
 
                 // The second point we keep is the intersection between the segment v1, v2 and the clipping plane
-                const decimal t = computePlaneSegmentIntersection(vStart, vEnd, planeNormalDotPlanePoint, planeNormal);
-
-                if (t >= decimal(0) && t <= decimal(1.0)) {
-                    outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
-                }
-                else {
-                    outClippedPolygonVertices.add(vEnd);
-                }
+                const decimal t = vStartDotN / (vStartDotN - vEndDotN);
+                outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
             }
 
             // Add the second vertex
@@ -376,14 +359,8 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
             if (vStartDotN >= decimal(0.0)) {
 
                 // The first point we keep is the intersection between the segment v1, v2 and the clipping plane
-                const decimal t = computePlaneSegmentIntersection(vStart, vEnd, -planeNormalDotPlanePoint, -planeNormal);
-
-                if (t >= decimal(0.0) && t <= decimal(1.0)) {
-                    outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
-                }
-                else {
-                    outClippedPolygonVertices.add(vStart);
-                }
+                const decimal t = vStartDotN / (vStartDotN - vEndDotN);
+                outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
             }
         }
 
-- 
2.43.0


From 7a4f89436dc129e70f19a7269df2b13e23916681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 70/78] fix: do not reject the division of a vector by a
 negative number

---
 include/reactphysics3d/mathematics/Vector2.h |  8 ++++----
 include/reactphysics3d/mathematics/Vector3.h | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Vector2.h b/include/reactphysics3d/mathematics/Vector2.h
index 27cbd13..03af223 100644
--- a/include/reactphysics3d/mathematics/Vector2.h
+++ b/include/reactphysics3d/mathematics/Vector2.h
@@ -261,7 +261,7 @@ RP3D_FORCE_INLINE Vector2& Vector2::operator*=(decimal number) {
 
 // Overloaded operator for division by a number with assignment
 RP3D_FORCE_INLINE Vector2& Vector2::operator/=(decimal number) {
-    assert(number > std::numeric_limits<decimal>::epsilon());
+    assert(std::abs(number) > std::numeric_limits<decimal>::epsilon());
     x /= number;
     y /= number;
     return *this;
@@ -304,14 +304,14 @@ RP3D_FORCE_INLINE Vector2 operator*(const Vector2& vector1, const Vector2& vecto
 
 // Overloaded operator for division by a number
 RP3D_FORCE_INLINE Vector2 operator/(const Vector2& vector, decimal number) {
-    assert(number > MACHINE_EPSILON);
+    assert(std::abs(number) > MACHINE_EPSILON);
     return Vector2(vector.x / number, vector.y / number);
 }
 
 // Overload operator for division between two vectors
 RP3D_FORCE_INLINE Vector2 operator/(const Vector2& vector1, const Vector2& vector2) {
-    assert(vector2.x > MACHINE_EPSILON);
-    assert(vector2.y > MACHINE_EPSILON);
+    assert(std::abs(vector2.x) > MACHINE_EPSILON);
+    assert(std::abs(vector2.y) > MACHINE_EPSILON);
     return Vector2(vector1.x / vector2.x, vector1.y / vector2.y);
 }
 
diff --git a/include/reactphysics3d/mathematics/Vector3.h b/include/reactphysics3d/mathematics/Vector3.h
index 80a4727..fffbfe8 100644
--- a/include/reactphysics3d/mathematics/Vector3.h
+++ b/include/reactphysics3d/mathematics/Vector3.h
@@ -292,7 +292,7 @@ RP3D_FORCE_INLINE Vector3& Vector3::operator*=(decimal number) {
 
 // Overloaded operator for division by a number with assignment
 RP3D_FORCE_INLINE Vector3& Vector3::operator/=(decimal number) {
-    assert(number > std::numeric_limits<decimal>::epsilon());
+    assert(std::abs(number) > std::numeric_limits<decimal>::epsilon());
     x /= number;
     y /= number;
     z /= number;
@@ -331,15 +331,15 @@ RP3D_FORCE_INLINE Vector3 operator*(const Vector3& vector, decimal number) {
 
 // Overloaded operator for division by a number
 RP3D_FORCE_INLINE Vector3 operator/(const Vector3& vector, decimal number) {
-    assert(number > MACHINE_EPSILON);
+    assert(std::abs(number) > MACHINE_EPSILON);
     return Vector3(vector.x / number, vector.y / number, vector.z / number);
 }
 
 // Overload operator for division between two vectors
 RP3D_FORCE_INLINE Vector3 operator/(const Vector3& vector1, const Vector3& vector2) {
-    assert(vector2.x > MACHINE_EPSILON);
-    assert(vector2.y > MACHINE_EPSILON);
-    assert(vector2.z > MACHINE_EPSILON);
+    assert(std::abs(vector2.x) > MACHINE_EPSILON);
+    assert(std::abs(vector2.y) > MACHINE_EPSILON);
+    assert(std::abs(vector2.z) > MACHINE_EPSILON);
     return Vector3(vector1.x / vector2.x, vector1.y / vector2.y, vector1.z / vector2.z);
 }
 
-- 
2.43.0


From 6e14202e1044b3bc4aa9166decb3a9351d6bb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 71/78] fix: return the angle of a rotation whose real part is
 rounded above one

---
 src/mathematics/Quaternion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathematics/Quaternion.cpp b/src/mathematics/Quaternion.cpp
index 62b8bea..a2ce57c 100644
--- a/src/mathematics/Quaternion.cpp
+++ b/src/mathematics/Quaternion.cpp
@@ -28,6 +28,7 @@
 #include <reactphysics3d/mathematics/Vector3.h>
 #include <reactphysics3d/mathematics/Matrix3x3.h>
 #include <cassert>
+#include <algorithm>
 
 // Namespace
 using namespace reactphysics3d;
@@ -121,8 +122,8 @@ Quaternion::Quaternion(const Matrix3x3& matrix) {
 /// rotation axis of an orientation quaternion.
 void Quaternion::getRotationAngleAxis(decimal& angle, Vector3& axis) const {
 
-    // Compute the roation angle
-    angle = std::acos(w) * decimal(2.0);
+    // Compute the rotation angle (the real part can be slightly outside of [-1, 1] because of rounding)
+    angle = std::acos(std::max(decimal(-1.0), std::min(w, decimal(1.0)))) * decimal(2.0);
 
     // Compute the 3D rotation axis
     Vector3 rotationAxis(x, y, z);
-- 
2.43.0


From f5ce51486aabc78e7496c8781f3cc09321e411b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 72/78] fix: keep the accumulated impulses of a slider joint
 valid when its axis turns

---
 src/systems/SolveSliderJointSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 076d7f5..adc77b2 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -81,7 +81,8 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mSliderAxisWorld[i] = orientationBody1 * mSliderJointComponents.mSliderAxisBody1[i];
         mSliderJointComponents.mSliderAxisWorld[i].normalize();
 
-        mSliderJointComponents.mN1[i] = mSliderJointComponents.mSliderAxisWorld[i].getOneUnitOrthogonalVector();
+        // The vectors "n1" and "n2" are attached to the body 1 because the accumulated impulses are expressed with them
+        mSliderJointComponents.mN1[i] = orientationBody1 * mSliderJointComponents.mSliderAxisBody1[i].getOneUnitOrthogonalVector();
         mSliderJointComponents.mN2[i] = mSliderJointComponents.mSliderAxisWorld[i].cross(mSliderJointComponents.mN1[i]);
 
         const Vector3& x1 = mRigidBodyComponents.mCentersOfMassWorld[componentIndexBody1];
@@ -577,7 +578,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // Compute the two orthogonal vectors to the slider axis in world-space
         mSliderJointComponents.mSliderAxisWorld[i] = q1 * mSliderJointComponents.mSliderAxisBody1[i];
         mSliderJointComponents.mSliderAxisWorld[i].normalize();
-        mSliderJointComponents.mN1[i] = mSliderJointComponents.mSliderAxisWorld[i].getOneUnitOrthogonalVector();
+        mSliderJointComponents.mN1[i] = q1 * mSliderJointComponents.mSliderAxisBody1[i].getOneUnitOrthogonalVector();
         mSliderJointComponents.mN2[i] = mSliderJointComponents.mSliderAxisWorld[i].cross(n1);
 
         // Check if the limit constraints are violated or not
-- 
2.43.0


From a37eaefcd2612194c8bdcacb2dd8ac44e7f86910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 73/78] fix: keep the accumulated impulses of a hinge joint
 valid when its axis turns

---
 src/systems/SolveHingeJointSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 0aa8415..072484d 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -84,7 +84,8 @@ void SolveHingeJointSystem::initBeforeSolve() {
 
         a1.normalize();
         a2.normalize();
-        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
+        // The vectors "b2" and "c2" are attached to the body 2 because the accumulated impulses are expressed with them
+        const Vector3 b2 = orientationBody2 * mHingeJointComponents.mHingeLocalAxisBody2[i].getOneUnitOrthogonalVector();
         const Vector3 c2 = a2.cross(b2);
         mHingeJointComponents.mB2CrossA1[i] = b2.cross(a1);
         mHingeJointComponents.mC2CrossA1[i] = c2.cross(a1);
@@ -517,7 +518,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         a1.normalize();
         mHingeJointComponents.mA1[i] = a1;
         a2.normalize();
-        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
+        const Vector3 b2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i].getOneUnitOrthogonalVector();
         const Vector3 c2 = a2.cross(b2);
         b2CrossA1 = b2.cross(a1);
         mHingeJointComponents.mB2CrossA1[i] = b2CrossA1;
-- 
2.43.0


From 5b6522f14ff484c84814319958ee1154bc539aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 74/78] fix: ray casts miss small triangles because of an
 absolute epsilon

---
 src/collision/shapes/TriangleShape.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 448e377..acdad0b 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -182,8 +182,11 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
-    // If the line PQ is in the triangle plane (case where u=v=w=0)
-    if (approxEqual(u, 0) && approxEqual(v, 0) && approxEqual(w, 0)) return false;
+    // If the line PQ is in the triangle plane (case where u=v=w=0). Note that the values u, v and w of a small triangle
+    // are also small. Therefore, the epsilon must be relative to the size of the vectors of the triple products
+    const decimal maxSquareDistance = std::max(std::max(pa.lengthSquare(), pb.lengthSquare()), pc.lengthSquare());
+    const decimal epsilon = MACHINE_EPSILON * std::min(decimal(1.0), pq.length() * maxSquareDistance);
+    if (std::abs(u) <= epsilon && std::abs(v) <= epsilon && std::abs(w) <= epsilon) return false;
 
     // Compute the barycentric coordinates (u, v, w) to determine the
     // intersection point R, R = u * a + v * b + w * c
-- 
2.43.0


From 34647622306dbc20524518e324a700cd79524fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 75/78] fix: long rays miss spheres and capsules because of
 cancellation in the quadratic equation

---
 src/collision/shapes/CapsuleShape.cpp | 39 ++++++++++++++++-----------
 src/collision/shapes/SphereShape.cpp  | 20 +++++++-------
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index 53d278b..ae3a000 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -115,18 +115,25 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal ddotDExtraCaps = decimal(2.0) * mMargin * d.y;
     if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + nDotD > dDotD + ddotDExtraCaps) return false;
 
+    // If the ray has no length, there is no intersection
     decimal nDotN = n.dot(n);
-    decimal mDotN = m.dot(n);
+    if (nDotN <= decimal(0.0)) return false;
 
     decimal a = dDotD * nDotN - nDotD * nDotD;
-    decimal k = m.dot(m) - mMargin * mMargin;
-    decimal c = dDotD * k - mDotD * mDotD;
+
+    // Solve the quadratic equation from the point of the ray that is the closest to "p" (with the origin of the ray,
+    // the coefficients have no correct digit left when the ray starts far from the capsule)
+    const decimal tClosest = -m.dot(n) / nDotN;
+    const Vector3 mClosest = m + tClosest * n;
+    const decimal mClosestDotD = mClosest.dot(d);
+    decimal k = mClosest.dot(mClosest) - mMargin * mMargin;
+    decimal c = dDotD * k - mClosestDotD * mClosestDotD;
 
     // If the ray is parallel to the capsule axis (a is the squared sine of the angle between the ray and the axis
     // multiplied by the squared lengths of both segments)
     if (std::abs(a) < epsilon * dDotD * nDotN) {
 
-        // If the origin is outside the surface of the capusle's cylinder, we return no hit
+        // If the ray is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
 
         // Here we know that the segment intersect an endcap of the capsule
@@ -172,14 +179,14 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
             return false;
         }
     }
-    decimal b = dDotD * mDotN - nDotD * mDotD;
+    decimal b = dDotD * mClosest.dot(n) - nDotD * mClosestDotD;
     decimal discriminant = b * b - a * c;
 
     // If the discriminant is negative, no real roots and therfore, no hit
     if (discriminant < decimal(0.0)) return false;
 
     // Compute the smallest root (first intersection along the ray)
-    decimal t0 = t = (-b - std::sqrt(discriminant)) / a;
+    decimal t0 = t = tClosest + (-b - std::sqrt(discriminant)) / a;
 
     // If the intersection is outside the finite cylinder of the capsule on "p" endcap side
     decimal value = mDotD + t * nDotD;
@@ -260,22 +267,24 @@ bool CapsuleShape::raycastWithSphereEndCap(const Vector3& point1, const Vector3&
 
     decimal raySquareLength = rayDirection.lengthSquare();
 
-    // Compute the discriminant of the quadratic equation
-    decimal discriminant = b * b - raySquareLength * c;
+    // If the ray length is very small, there is no intersection
+    if (raySquareLength < MACHINE_EPSILON) return false;
 
-    // If the discriminant is negative or the ray length is very small, there is no intersection
-    if (discriminant < decimal(0.0) || raySquareLength < MACHINE_EPSILON) return false;
+    // Compute the discriminant of the quadratic equation from the point of the ray that is the closest to the
+    // center (b * b - raySquareLength * c has no correct digit left when the ray starts far from the sphere)
+    const decimal tClosest = -b / raySquareLength;
+    const decimal discriminant = mMargin * mMargin - (m + tClosest * rayDirection).lengthSquare();
 
-    // Compute the solution "t" closest to the origin
-    decimal t = -b - std::sqrt(discriminant);
+    // If the discriminant is negative, there is no intersection
+    if (discriminant < decimal(0.0)) return false;
 
-    assert(t >= decimal(0.0));
+    // Compute the solution "t" closest to the origin
+    decimal t = std::max(tClosest - std::sqrt(discriminant / raySquareLength), decimal(0.0));
 
     // If the hit point is withing the segment ray fraction
-    if (t < maxFraction * raySquareLength) {
+    if (t < maxFraction) {
 
         // Compute the intersection information
-        t /= raySquareLength;
         hitFraction = t;
         hitLocalPoint = point1 + t * rayDirection;
 
diff --git a/src/collision/shapes/SphereShape.cpp b/src/collision/shapes/SphereShape.cpp
index 515f956..040aeb9 100644
--- a/src/collision/shapes/SphereShape.cpp
+++ b/src/collision/shapes/SphereShape.cpp
@@ -75,22 +75,24 @@ bool SphereShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
 
     decimal raySquareLength = rayDirection.lengthSquare();
 
-    // Compute the discriminant of the quadratic equation
-    decimal discriminant = b * b - raySquareLength * c;
+    // If the ray length is very small, there is no intersection
+    if (raySquareLength < MACHINE_EPSILON) return false;
 
-    // If the discriminant is negative or the ray length is very small, there is no intersection
-    if (discriminant < decimal(0.0) || raySquareLength < MACHINE_EPSILON) return false;
+    // Compute the discriminant of the quadratic equation from the point of the ray that is the closest to the
+    // center (b * b - raySquareLength * c has no correct digit left when the ray starts far from the sphere)
+    const decimal tClosest = -b / raySquareLength;
+    const decimal discriminant = mMargin * mMargin - (m + tClosest * rayDirection).lengthSquare();
 
-    // Compute the solution "t" closest to the origin
-    decimal t = -b - std::sqrt(discriminant);
+    // If the discriminant is negative, there is no intersection
+    if (discriminant < decimal(0.0)) return false;
 
-    assert(t >= decimal(0.0));
+    // Compute the solution "t" closest to the origin
+    decimal t = std::max(tClosest - std::sqrt(discriminant / raySquareLength), decimal(0.0));
 
     // If the hit point is withing the segment ray fraction
-    if (t < ray.maxFraction * raySquareLength) {
+    if (t < ray.maxFraction) {
 
         // Compute the intersection information
-        t /= raySquareLength;
         raycastInfo.body = collider->getBody();
         raycastInfo.collider = collider;
         raycastInfo.hitFraction = t;
-- 
2.43.0


From 00bd076c1c7573bc9fec8a862c07c92a88dc47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 76/78] fix: overlaps of small objects are missed because of
 absolute tolerances in the narrow phase

---
 .../mathematics/mathematics_functions.h       | 10 ++++----
 .../narrowphase/GJK/VoronoiSimplex.cpp        | 23 ++++++++++++-------
 .../narrowphase/SAT/SATAlgorithm.cpp          |  2 +-
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 6e56c51..9d632db 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -72,9 +72,10 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
     return a * b >= decimal(0.0);
 }
 
-// Return true if two vectors are parallel
+// Return true if two vectors are parallel (the tolerance is relative to the length of the vectors when they are short)
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
-    return vector1.cross(vector2).lengthSquare() < decimal(0.00001);
+    const decimal lengthsSquare = std::min(decimal(1.0), vector1.lengthSquare() * vector2.lengthSquare());
+    return vector1.cross(vector2).lengthSquare() <= decimal(0.00001) * lengthsSquare;
 }
 
 
@@ -230,8 +231,9 @@ RP3D_FORCE_INLINE decimal computePlaneSegmentIntersection(const Vector3& segA, c
 
     const decimal nDotAB = planeNormal.dot(segB - segA);
 
-    // If the segment is not parallel to the plane
-    if (std::abs(nDotAB) > parallelEpsilon) {
+    // If the segment is not parallel to the plane (the tolerance is relative to the lengths when they are short)
+    const decimal lengthsSquare = std::min(decimal(1.0), planeNormal.lengthSquare() * (segB - segA).lengthSquare());
+    if (std::abs(nDotAB) > parallelEpsilon * std::sqrt(lengthsSquare)) {
         t = (planeD - planeNormal.dot(segA)) / nDotAB;
     }
 
diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index 8619947..c7b9096 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -91,6 +91,9 @@ void VoronoiSimplex::reduceSimplex(int bitsUsedPoints) {
 // Return true if the point is in the simplex
 bool VoronoiSimplex::isPointInSimplex(const Vector3& point) const {
 
+    // The tolerance is relative to the size of the simplex when the objects are small
+    const decimal sizeSquare = std::min(decimal(1.0), std::max(getMaxLengthSquareOfAPoint(), point.lengthSquare()));
+
     // For each four possible points in the simplex
     for (int i=0; i<mNbPoints; i++) {
 
@@ -98,7 +101,7 @@ bool VoronoiSimplex::isPointInSimplex(const Vector3& point) const {
         decimal distanceSquare = (mPoints[i] - point).lengthSquare();
 
         // If the point is very close
-        if (distanceSquare <= epsilon) {
+        if (distanceSquare <= epsilon * sizeSquare) {
             return true;
         }
     }
@@ -127,19 +130,22 @@ bool VoronoiSimplex::isAffinelyDependent() const {
 
     assert(mNbPoints >= 0 && mNbPoints <= 4);
 
+    // The tolerances are relative to the size of the simplex when the objects are small
+    const decimal sizeSquare = std::min(decimal(1.0), getMaxLengthSquareOfAPoint());
+
     switch(mNbPoints) {
         case 0: return false;
         case 1: return false;
 
         // Two points are independent if there distance is larger than zero
-        case 2: return (mPoints[1] - mPoints[0]).lengthSquare() <= epsilon;
+        case 2: return (mPoints[1] - mPoints[0]).lengthSquare() <= epsilon * sizeSquare;
 
         // Three points are independent if the triangle area is larger than zero
-        case 3: return (mPoints[1] - mPoints[0]).cross(mPoints[2] - mPoints[0]).lengthSquare() <= epsilon;
+        case 3: return (mPoints[1] - mPoints[0]).cross(mPoints[2] - mPoints[0]).lengthSquare() <= epsilon * sizeSquare * sizeSquare;
 
         // Four points are independent if the tetrahedron volume is larger than zero
         // Test in three different ways (for more robustness)
-        case 4: return std::abs((mPoints[1] - mPoints[0]).dot((mPoints[2] - mPoints[0]).cross(mPoints[3] - mPoints[0]))) <= epsilon;
+        case 4: return std::abs((mPoints[1] - mPoints[0]).dot((mPoints[2] - mPoints[0]).cross(mPoints[3] - mPoints[0]))) <= epsilon * sizeSquare * std::sqrt(sizeSquare);
     }
 
     return false;
@@ -377,7 +383,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge AB
         // We return the projection of the origin on the edge AB
-        assert(std::abs(d1 - d3) > MACHINE_EPSILON);
+        assert(std::abs(d1 - d3) > decimal(0.0));
         decimal v = d1 / (d1 - d3);
 
         // Set the barycentric coords of the closest point on the triangle
@@ -408,7 +414,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge AC
         // We return the projection of the origin on the edge AC
-        assert(std::abs(d2 - d6) > MACHINE_EPSILON);
+        assert(std::abs(d2 - d6) > decimal(0.0));
         decimal w = d2 / (d2 - d6);
 
         // Set the barycentric coords of the closest point on the triangle
@@ -424,7 +430,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge BC
         // We return the projection of the origin on the edge BC
-        assert(std::abs((d4 - d3) + (d5 - d6)) > MACHINE_EPSILON);
+        assert(std::abs((d4 - d3) + (d5 - d6)) > decimal(0.0));
         decimal w = (d4 - d3) / ((d4 - d3) + (d5 - d6));
 
         // Set the barycentric coords of the closest point on the triangle
@@ -603,7 +609,8 @@ int VoronoiSimplex::testOriginOutsideOfPlane(const Vector3& a, const Vector3& b,
     // This should never happen because after a point is added into the simplex, the user
     // of this class must check that the simplex is not affinely dependent using the
     // isAffinelyDependent() method
-    if(signd * signd < epsilon * epsilon) {
+    const decimal sizeSquare = std::min(decimal(1.0), getMaxLengthSquareOfAPoint());
+    if(std::abs(signd) < epsilon * sizeSquare * std::sqrt(sizeSquare)) {
         return -1;
     }
 
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 296abd9..7823d43 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -332,7 +332,7 @@ decimal SATAlgorithm::computeEdgeVsCapsuleInnerSegmentPenetrationDepth(const Con
     outAxis = capsuleSegmentAxis.cross(edgeDirectionCapsuleSpace);
 
     // Skip separating axis test if polyhedron edge is parallel to the capsule inner segment
-    if (outAxis.lengthSquare() >= decimal(0.00001)) {
+    if (!areParallelVectors(capsuleSegmentAxis, edgeDirectionCapsuleSpace)) {
 
         const Vector3 polyhedronCentroid = polyhedronToCapsuleTransform * polyhedron->getCentroid();
         const Vector3 pointOnPolyhedronEdge = polyhedronToCapsuleTransform * edgeVertex1;
-- 
2.43.0


From 86e90495c578553e06464380566bd671b98c75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 77/78] fix: GJK loses the contacts between a small and a very
 large object because it keeps a worse closest point

---
 .../narrowphase/GJK/GJKAlgorithm.cpp          | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
index e447c52..110a0e1 100644
--- a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
+++ b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
@@ -63,6 +63,7 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         decimal vDotw;
         decimal prevDistSquare;
         bool contactFound = false;
+        bool usePreviousClosestPoints = false;
 
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->isConvex());
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2->isConvex());
@@ -141,6 +142,10 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
                 break;
             }
 
+            // Keep the current closest points
+            const Vector3 previousV = v;
+            simplex.computeClosestPointsOfAandB(pA, pB);
+
             // Add the new support point to the simplex
             simplex.addPoint(w, suppA, suppB);
 
@@ -156,7 +161,9 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             // If the computation of the closest point fails
             if (!simplex.computeClosestPoint(v)) {
 
-                // Contact point has been found
+                // Contact point has been found (use the previous closest points)
+                v = previousV;
+                usePreviousClosestPoints = true;
                 contactFound = true;
                 break;
             }
@@ -168,10 +175,14 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             // If the distance to the closest point doesn't improve a lot
             if (prevDistSquare - distSquare <= MACHINE_EPSILON * prevDistSquare) {
 
-                simplex.backupClosestPointInSimplex(v);
+                // If the new closest points are not as good as the previous ones (because of numerical errors)
+                if (distSquare > prevDistSquare) {
 
-                // Get the new squared distance
-                distSquare = v.lengthSquare();
+                    // Use the previous closest points
+                    v = previousV;
+                    distSquare = prevDistSquare;
+                    usePreviousClosestPoints = true;
+                }
 
                 // Contact point has been found
                 contactFound = true;
@@ -187,7 +198,9 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         if (contactFound && distSquare > MACHINE_EPSILON) {
 
             // Compute the closet points of both objects (without the margins)
-            simplex.computeClosestPointsOfAandB(pA, pB);
+            if (!usePreviousClosestPoints) {
+                simplex.computeClosestPointsOfAandB(pA, pB);
+            }
 
             // Project those two points on the margins to have the closest points of both
             // object with the margins
@@ -208,6 +221,14 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
                 continue;
             }
 
+            // If the algorithm stopped (because of numerical errors) before it has found a plane that separates the two
+            // objects (without the margins), they might be overlapping more deeply
+            if (vDotw <= decimal(0.0)) {
+                assert(gjkResults.size() == batchIndex);
+                gjkResults.add(GJKResult::INTERPENETRATE);
+                continue;
+            }
+
             // Do not generate a contact point with zero normal length
             if (normal.lengthSquare() < MACHINE_EPSILON) {
                 assert(gjkResults.size() == batchIndex);
-- 
2.43.0


From 35f24509e8153f4fd5345580ab48e13311750923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 78/78] fix: overlaps of large polyhedra are missed because
 nearly parallel edges are used as separating axis

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 9d632db..a734681 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -72,10 +72,9 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
     return a * b >= decimal(0.0);
 }
 
-// Return true if two vectors are parallel (the tolerance is relative to the length of the vectors when they are short)
+// Return true if two vectors are parallel (the tolerance is relative to the length of the vectors)
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
-    const decimal lengthsSquare = std::min(decimal(1.0), vector1.lengthSquare() * vector2.lengthSquare());
-    return vector1.cross(vector2).lengthSquare() <= decimal(0.00001) * lengthsSquare;
+    return vector1.cross(vector2).lengthSquare() <= decimal(0.00001) * vector1.lengthSquare() * vector2.lengthSquare();
 }
 
 
-- 
2.43.0

